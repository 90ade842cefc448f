------------------------------ MODULE Tensors ------------------------------
(* Multilinear functions of vectors with multivector values, by their components T(e_i1,..,e_ik)  *)
(* in the frame of a chart: [ k |-> rank, c |-> the n^k values, the first slot the most            *)
(* significant ].  The derivatives of the components along coordinate i are d[i].                  *)
EXTENDS Calculus

RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k-1)
Dig(n, k, p, s) == (((p-1) \div IPow(n, k-s)) % n) + 1                    \* index in slot s of component p
Pos(n, k, f(_)) == 1 + FoldLeft(LAMBDA acc, s : acc + (f(s)-1) * IPow(n, k-s), 0, [ s \in 1..k |-> s ])
SumMv(A, f) == FoldLeft(LAMBDA acc, x : Add(A.m, acc, x), Zero(A.n), f)
GInv(A) == MatInv(A.m, A.g)
Comp1(A, x) == TLCEval([ i \in 1..A.n |-> x[Pow2[i-1]+1] ])

TComps(A, k, f(_)) == TLCEval([ p \in 1..IPow(A.n, k) |-> TLCEval(f(p)) ])
Ten(A, k, f(_)) == [ k |-> k, c |-> TComps(A, k, f) ]

(* the value on the vectors xs[1..k] *)
TEval(A, T, xs) ==
  LET co == TLCEval([ s \in 1..T.k |-> Comp1(A, xs[s]) ]) IN
  SumMv(A, [ p \in 1..IPow(A.n, T.k) |->
    Scale(A.m, FoldLeft(LAMBDA acc, s : Md(A.m, acc * co[s][Dig(A.n, T.k, p, s)]), 1, [ s \in 1..T.k |-> s ]), T.c[p]) ])
TAdd(A, S, T) == Ten(A, S.k, LAMBDA p : Add(A.m, S.c[p], T.c[p]))
TSub(A, S, T) == Ten(A, S.k, LAMBDA p : Sub(A.m, S.c[p], T.c[p]))
TScale(A, x, T) == Ten(A, T.k, LAMBDA p : Scale(A.m, x, T.c[p]))
TProd(A, op, S, T) == LET w == IPow(A.n, T.k) IN
  Ten(A, S.k + T.k, LAMBDA p : ProdOf(A, op, S.c[((p-1) \div w) + 1], T.c[((p-1) % w) + 1]))

(* slots i < j of T replaced by a pair of mutually reciprocal frames *)
TContract(A, T, i, j) == LET gi == GInv(A) IN
  Ten(A, T.k - 2, LAMBDA p :
    SumMv(A, [ q \in 1..(A.n * A.n) |->
      LET x == Dig(A.n, 2, q, 1)  y == Dig(A.n, 2, q, 2) IN
        Scale(A.m, gi[x][y],
          T.c[Pos(A.n, T.k, LAMBDA s : IF s = i THEN x ELSE IF s = j THEN y
                            ELSE Dig(A.n, T.k - 2, p, IF s < i THEN s ELSE IF s < j THEN s - 1 ELSE s - 2))]) ]))

(* the vector derivative with respect to slot i, at the vectors xs *)
TPDiff(A, T, i, xs) == LET gi == GInv(A) IN
  SumMv(A, [ l \in 1..A.n |-> Mul(A, Vec(A.n, gi[l]), TEval(A, T, [ xs EXCEPT ![i] = Blade(A.n, Pow2[l-1]) ])) ])

(* derivative along the last slot with the other arguments constant / carried in parallel *)
FDeriv(C, i, nu, T, d, p) == Scale(C.alg.m, InvMod(C.alg.m, nu[i]), CovD(C, i, T.c[p], d[i][p]))
TDD(C, nu, T, d) == LET A == C.alg IN
  (* constant arguments of constant coefficients: the coefficients of the arguments do not change, but the value of T on the frame does *)
  Ten(A, T.k + 1, LAMBDA p : FDeriv(C, ((p-1) % A.n) + 1, nu, T, d, ((p-1) \div A.n) + 1))
TCovD(C, nu, T, d) == LET A == C.alg IN
  Ten(A, T.k + 1, LAMBDA p :
    LET i == ((p-1) % A.n) + 1
        q == ((p-1) \div A.n) + 1
        cn == InvMod(A.m, nu[i])
    IN FoldLeft(LAMBDA acc, s :
         LET G == Comp1(A, C.conn[i][Dig(A.n, T.k, q, s)]) IN
           Sub(A.m, acc, SumMv(A, [ l \in 1..A.n |->
              Scale(A.m, Md(A.m, cn * G[l]), T.c[Pos(A.n, T.k, LAMBDA t : IF t = s THEN l ELSE Dig(A.n, T.k, q, t))]) ])),
         FDeriv(C, i, nu, T, d, q), [ s \in 1..T.k |-> s ]))
=============================================================================
