------------------------------ MODULE Calculus ------------------------------
(***************************************************************************)
(* Differential calculus of multivector fields at a point of a manifold    *)
(* with coordinates, from the definitions.  A chart is given by the values *)
(* at the point of the coordinate metric g[i][j], of its derivatives       *)
(* dg[i][j][k] = d_k g_ij, and by the lengths nu[i] by which the coordinate*)
(* vectors are divided to form the frame (all 1 and normed = FALSE when the  *)
(* basis is not normalised).  Multivectors are expressed in the frame.                  *)
(***************************************************************************)
EXTENDS Geometry

Half(m) == InvMod(m, 2)

(* Levi-Civita symbols of the first kind: D_i e_j = G1[i][j][k] e^k *)
Christ1(m, n, dg) == TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> TLCEval([ k \in 1..n |->
     Md(m, Half(m) * Md(m, dg[j][k][i] + dg[i][k][j] - dg[i][j][k])) ]) ]) ])
(* second kind: D_i e_j = G2[i][j][l] e_l *)
Christ2(m, n, g, dg) ==
  LET G1 == Christ1(m, n, dg)  gi == MatInv(m, g) IN
    TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> TLCEval([ l \in 1..n |->
      FoldLeft(LAMBDA acc, k : Md(m, acc + G1[i][j][k] * gi[k][l]), 0, [ k \in 1..n |-> k ]) ]) ]) ])

(* derivative of the length nu_j: nu_j^2 = +- g_jj *)
DNu(m, g, dg, nu, j, i) ==
  LET s == IF Md(m, nu[j] * nu[j]) = Md(m, g[j][j]) THEN 1 ELSE m - 1
  IN Md(m, Md(m, s * dg[j][j][i]) * InvMod(m, Md(m, 2 * nu[j])))

(* chart: algebra of the frame, derivatives of the frame vectors (as multivectors), and the vectors *)
(* w[i] of the vector derivative  grad = sum_i w[i] D_i                                            *)
MkChart(m, n, g, dg, nu, normed) ==
  LET iv   == TLCEval([ i \in 1..n |-> InvMod(m, nu[i]) ])
      gh   == TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> Md(m, Md(m, g[i][j] * iv[i]) * iv[j]) ]) ])
      cst  == \A i, j, k \in 1..n : dg[i][j][k] = 0
      ndeg == Det(m, g) # 0
      gi   == IF ndeg THEN MatInv(m, g) ELSE MatId(n)
      G2   == IF ndeg /\ ~cst THEN Christ2(m, n, g, dg) ELSE <<>>
      conn == TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |->
                IF cst \/ ~ndeg THEN Zero(n)
                ELSE LET dn == IF normed THEN DNu(m, g, dg, nu, j, i) ELSE 0 IN
                  Vec(n, TLCEval([ l \in 1..n |->
                     Md(m, Md(m, Md(m, G2[i][j][l] * nu[l]) * iv[j]) -
                           (IF l = j THEN Md(m, dn * iv[j]) ELSE 0)) ])) ]) ])
      w    == TLCEval([ i \in 1..n |-> Vec(n, TLCEval([ l \in 1..n |-> Md(m, gi[i][l] * nu[l]) ])) ])
  IN [ alg |-> MkAlg(m, n, gh), conn |-> conn, w |-> w, cst |-> cst, ndeg |-> ndeg, g |-> g, dg |-> dg ]

(* derivative of a basis blade of the frame along coordinate i: the product rule over its factors *)
BladeDeriv(C, i, M) ==
  LET A == C.alg
      F(acc, j) ==      \* acc = <<blade so far, derivative so far>>
        IF j \notin Bits(M) THEN acc
        ELSE LET ej == Blade(A.n, Pow2[j-1]) IN
          << Wedge(A.m, acc[1], ej),
             Add(A.m, Wedge(A.m, acc[2], ej), Wedge(A.m, acc[1], C.conn[i][j])) >>
  IN FoldLeft(F, << Scal(A.n, 1), Zero(A.n) >>, [ j \in 1..A.n |-> j ])[2]

(* coordinate derivative of the field with coefficients F, whose coefficients have derivatives dF *)
CovD(C, i, F, dF) ==
  LET A == C.alg IN
    IF C.cst THEN dF
    ELSE FoldLeft(LAMBDA acc, k : IF F[k] = 0 \/ k = 1 THEN acc
                     ELSE Add(A.m, acc, Scale(A.m, F[k], BladeDeriv(C, i, k-1))),
                  dF, [ k \in 1..Len(F) |-> k ])

(* derivative along a curve: coordinates that are functions of a parameter, with derivatives u, and coefficients   *)
(* that depend on the parameter themselves (derivatives dP)                                                        *)
CurveD(C, F, dF, dP, u) ==
  FoldLeft(LAMBDA acc, i : IF u[i] = 0 THEN acc ELSE Add(C.alg.m, acc, Scale(C.alg.m, u[i], CovD(C, i, F, dF[i]))),
           dP, [ i \in 1..C.alg.n |-> i ])

ProdOf(A, op, x, y) == CASE op = "*" -> Mul(A, x, y) [] op = "^" -> Wedge(A.m, x, y)
                         [] op = "|" -> HDot(A, x, y) [] op = "<" -> LC(A, x, y) [] op = ">" -> RC(A, x, y)

(* the vector derivative from the left and from the right *)
GradL(C, op, F, dF) ==
  FoldLeft(LAMBDA acc, i : Add(C.alg.m, acc, ProdOf(C.alg, op, C.w[i], CovD(C, i, F, dF[i]))),
           Zero(C.alg.n), [ i \in 1..C.alg.n |-> i ])
GradR(C, op, F, dF) ==
  FoldLeft(LAMBDA acc, i : Add(C.alg.m, acc, ProdOf(C.alg, op, CovD(C, i, F, dF[i]), C.w[i])),
           Zero(C.alg.n), [ i \in 1..C.alg.n |-> i ])
=============================================================================
