------------------------------ MODULE MC_Jets ------------------------------
(* The product of operators acts by succession (associative products, either side), checked on   *)
(* all elementary operators and fields: both sides are multilinear in the operators and the field *)
EXTENDS Jets
CONSTANTS P, N, K, R, GS     \* modulus, number of coordinates, order of jets, order of the operators, metrics
GSq == << << <<2>> >>, << <<1>> >> >>
GS2 == << << <<1, 1>>, <<1, 2>> >>, << <<1, 0>>, <<0, 2>> >> >>

MIs == SetToSortSeq({ f \in [1..N -> 0..K] : MDeg(f) <= K },
   LAMBDA a, b : MDeg(a) < MDeg(b) \/ (MDeg(a) = MDeg(b) /\ \E i \in 1..N : a[i] > b[i] /\ \A j \in 1..i-1 : a[j] = b[j]))
ASSUME TLCSet(1, TLCEval(MkTab(MIs)))
ASSUME TLCSet(2, TLCEval([ i \in 1..Len(GS) |-> MkAlg(P, N, GS[i]) ]))
T == TLCGet(1)
ASSUME SortedByDegree(T)
ElemJet(A, j, M) == TLCEval([ a \in 1..T.J |-> IF a = j THEN Blade(A.n, M) ELSE Zero(A.n) ])
ElemOp(A, cmp, a, j, M) == [ cmp |-> cmp, t |-> TLCEval([ b \in 1..T.J |-> IF b = a THEN ElemJet(A, j, M) ELSE <<>> ]) ]
Cut(F, G) == LET l == IF Len(F) < Len(G) THEN Len(F) ELSE Len(G) IN SubSeq(F, 1, l) = SubSeq(G, 1, l)
Same(F, G) == IF F = <<>> THEN IsZeroJet(G) ELSE IF G = <<>> THEN IsZeroJet(F) ELSE Cut(F, G)

LowIx == { a \in 1..T.J : T.deg[a] <= R }
MidIx == { a \in 1..T.J : T.deg[a] <= K - R }
VARIABLES vA, vD, vE, vF, vOp, vCmp
Init == /\ vA \in 1..Len(GS) /\ vOp \in { "*", "^" } /\ vCmp \in BOOLEAN
        /\ vD \in LowIx \X MidIx \X (0..Pow2[N]-1) /\ vE = <<>> /\ vF = <<>>
Next == \/ /\ vE = <<>> /\ vE' \in LowIx \X MidIx \X (0..Pow2[N]-1) /\ UNCHANGED <<vA, vD, vF, vOp, vCmp>>
        \/ /\ vE # <<>> /\ vF = <<>> /\ vF' \in (1..T.J) \X (0..Pow2[N]-1) /\ UNCHANGED <<vA, vD, vE, vOp, vCmp>>
Spec == Init /\ [][Next]_<<vA, vD, vE, vF, vOp, vCmp>>

Succession ==
  (vF # <<>>) =>
   LET A == TLCGet(2)[vA]
       D == ElemOp(A, vCmp, vD[1], vD[2], vD[3])
       E == ElemOp(A, vCmp, vE[1], vE[2], vE[3])
       F == ElemJet(A, vF[1], vF[2])
   IN IF vCmp THEN Same(OApply(A, T, vOp, OProd(A, T, vOp, D, E), F), OApply(A, T, vOp, E, OApply(A, T, vOp, D, F)))
      ELSE Same(OApply(A, T, vOp, OProd(A, T, vOp, D, E), F), OApply(A, T, vOp, D, OApply(A, T, vOp, E, F)))
(* the Leibniz rule for first derivatives *)
Leibniz ==
  (vE # <<>> /\ vF = <<>>) =>
   LET A == TLCGet(2)[vA]  F == ElemJet(A, vD[2], vD[3])  G == ElemJet(A, vE[2], vE[3]) IN
    \A i \in 1..N : LET u == T.unit[i] IN
      Same(JShift(T, JMul(A, T, vOp, F, G), u),
           JAdd(P, JMul(A, T, vOp, JShift(T, F, u), G), JMul(A, T, vOp, F, JShift(T, G, u))))
=============================================================================
