---- MODULE MC_Submanifold ----
(* Laws of the pulled-back metric over Z/m: a map of a map pulls back along the product of the Jacobians; the      *)
(* embedding preserves every product (so products in the submanifold are those of its image); the derivative of    *)
(* the pulled-back metric is exact (computed mod m^2); the connection of the submanifold is the tangential part of  *)
(* the ambient derivative.                                                                                          *)
EXTENDS Submanifold
CONSTANTS MM, NN, KK, Few
VARIABLES vG, vJ, vQ, vD
vars == <<vG, vJ, vQ, vD>>
F == 0..(MM-1)
Sym == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Some == { h \in Sym : Det(MM, h) # 0 /\ (Few => h[1][NN] \in {0, 1} /\ h[1][1] # 2) }
Jac(n, k) == [1..n -> [1..k -> F]]
Init == vG \in Some /\ vJ = <<>> /\ vQ = <<>> /\ vD = <<>>
PickJ == vJ = <<>> /\ vJ' \in { j \in Jac(NN, KK) : Few => (j[1][1] # 2 /\ (NN > 2 => j[2][1] = 0)) } /\ UNCHANGED <<vG, vQ, vD>>
PickQ == vJ # <<>> /\ vQ = <<>> /\ vD = <<>> /\ vQ' \in { q \in Jac(KK, 1) : Few => q[1][1] # 2 } /\ UNCHANGED <<vG, vJ, vD>>
(* derivatives: of the metric along one ambient coordinate, and second derivatives of the map *)
PickD == /\ vJ # <<>> /\ vQ = <<>> /\ vD = <<>>
         /\ \E p, q, c \in 1..NN, x \in F : \E l \in 1..NN, i, a \in 1..KK, y \in F :
              /\ (Few => x # 2 /\ y # 2)
              /\ vD' = << [ i1 \in 1..NN |-> [ j1 \in 1..NN |-> [ k1 \in 1..NN |-> IF <<i1, j1, k1>> \in { <<p, q, c>>, <<q, p, c>> } THEN x ELSE 0 ] ] ],
                          [ l1 \in 1..NN |-> [ i1 \in 1..KK |-> [ a1 \in 1..KK |->
                               IF l1 = l /\ <<i1, a1>> \in { <<i, a>>, <<a, i>> } THEN y ELSE IF l1 = 1 THEN 1 ELSE 0 ] ] ] >>
         /\ UNCHANGED <<vG, vJ, vQ>>
Next == PickJ \/ PickQ \/ PickD
Spec == Init /\ [][Next]_vars
G1 == Pull(MM, NN, KK, vJ, vG)
Functor == vQ # <<>> => Pull(MM, KK, 1, vQ, G1) = Pull(MM, NN, 1, MatMul(MM, vJ, vQ), vG)
Isometry == (vJ # <<>> /\ vQ = <<>> /\ vD = <<>>) =>
   LET A == MkAlg(MM, NN, vG)  S == MkAlg(MM, KK, G1)  P(f) == Push(A, KK, vJ, f)  B(M) == Blade(KK, M) IN
     \A M1, M2 \in 0..(Pow2[KK]-1) : \A op \in { "*", "^", "|", "<", ">" } :
        P(ProdOf(S, op, B(M1), B(M2))) = ProdOf(A, op, P(B(M1)), P(B(M2)))
MM2 == MM * MM
Exact == vD # <<>> => \A a \in 1..KK :
   LET Ga_ == TLCEval([ p \in 1..NN |-> TLCEval([ q \in 1..NN |->
                 vG[p][q] + MM * Md(MM, FoldLeft(LAMBDA acc, c : acc + vD[1][p][q][c] * vJ[c][a], 0, Ran(NN))) ]) ])
       Ja == TLCEval([ l \in 1..NN |-> TLCEval([ i \in 1..KK |-> vJ[l][i] + MM * vD[2][l][i][a] ]) ])
       X0 == Pull(MM2, NN, KK, vJ, vG)  X1 == Pull(MM2, NN, KK, Ja, Ga_)
       D  == PullD(MM, NN, KK, vJ, vD[2], vG, vD[1])
   IN \A i, j \in 1..KK : Md(MM, Md(MM2, X1[i][j] - X0[i][j]) \div MM) = D[i][j][a]
Ones(k) == [ i \in 1..k |-> 1 ]
(* Gauss: e_j . D_a e_i inside is e_j . D_a e_i outside *)
Gauss == (vD # <<>> /\ Det(MM, G1) # 0) =>
   LET C == MkChart(MM, NN, vG, vD[1], Ones(NN), FALSE)
       S == SubChart(MM, C, KK, vJ, vD[2], Ones(KK), FALSE)
       col(i) == Vec(NN, TLCEval([ l \in 1..NN |-> vJ[l][i] ]))
       Dcol(i, a) == FoldLeft(LAMBDA acc, c : Add(MM, acc, Scale(MM, vJ[c][a], CovD(C, c, col(i), Zero(NN)))),
                              Vec(NN, TLCEval([ l \in 1..NN |-> vD[2][l][i][a] ])), Ran(NN))
       Cov(i, a) == CovD(S, a, Blade(KK, Pow2[i-1]), Zero(KK))
   IN \A i, j, a \in 1..KK :
        ScalProd(S.alg, Blade(KK, Pow2[j-1]), Cov(i, a))[1] = ScalProd(C.alg, col(j), Dcol(i, a))[1]
====
