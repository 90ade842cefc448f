----------------------------- MODULE Submanifold -----------------------------
(***************************************************************************)
(* A map of coordinates into a manifold, at a point: J[l][i] = d_i Phi^l,   *)
(* H[l][i][a] = d_a d_i Phi^l.  The submanifold carries the metric pulled   *)
(* back from the ambient coordinate metric (whose values and derivatives   *)
(* at the image point are those of the ambient chart); everything else in  *)
(* its algebra follows from that metric.                                    *)
(***************************************************************************)
EXTENDS Calculus

Sum2(m, I1, I2, f(_, _)) ==
  FoldLeft(LAMBDA acc, x : FoldLeft(LAMBDA ac2, y : Md(m, ac2 + f(x, y)), acc, I2), 0, I1)
Ran(k) == [ i \in 1..k |-> i ]

Pull(m, n, k, J, G) ==
  TLCEval([ i \in 1..k |-> TLCEval([ j \in 1..k |->
     Sum2(m, Ran(n), Ran(n), LAMBDA p, q : Md(m, Md(m, J[p][i] * J[q][j]) * G[p][q])) ]) ])

PullD(m, n, k, J, H, G, dG) ==
  TLCEval([ i \in 1..k |-> TLCEval([ j \in 1..k |-> TLCEval([ a \in 1..k |->
     Sum2(m, Ran(n), Ran(n), LAMBDA p, q :
        Md(m, Md(m, Md(m, H[p][i][a] * J[q][j]) + Md(m, J[p][i] * H[q][j][a])) * G[p][q]) +
        Md(m, Md(m, J[p][i] * J[q][j]) *
              FoldLeft(LAMBDA acc, c : Md(m, acc + dG[p][q][c] * J[c][a]), 0, Ran(n)))) ]) ]) ])

(* the chart of the submanifold; P is the chart of the ambient manifold at the image point *)
SubChart(m, P, k, J, H, nu, normed) ==
  LET n == P.alg.n IN
    MkChart(m, k, Pull(m, n, k, J, P.g), PullD(m, n, k, J, H, P.g, P.dg), nu, normed)

(* the image of a multivector under the embedding (the ambient algebra A in its coordinate frame) *)
Push(A, k, J, F) ==
  LET col == TLCEval([ i \in 1..k |-> Vec(A.n, TLCEval([ l \in 1..A.n |-> J[l][i] ])) ])
      img(M) == FoldLeft(LAMBDA acc, i : IF i \in Bits(M) THEN Wedge(A.m, acc, col[i]) ELSE acc, Scal(A.n, 1), Ran(k))
  IN FoldLeft(LAMBDA acc, t : IF F[t] = 0 THEN acc ELSE Add(A.m, acc, Scale(A.m, F[t], img(t - 1))),
              Zero(A.n), Ran(Len(F)))
=============================================================================
