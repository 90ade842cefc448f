------------------------------ MODULE MC_Linear ------------------------------
(* Laws of linear transformations and their outermorphisms, over all matrices of a small field *)
EXTENDS Linear
CONSTANTS P, N
GS == IF N = 2 THEN << << <<1, 1>>, <<1, 2>> >>, << <<0, 1>>, <<1, 0>> >>, << <<1, 0>>, <<0, 2>> >>, << <<1, 0>>, <<0, 0>> >> >>
      ELSE << << <<1, 1, 0>>, <<1, 2, 1>>, <<0, 1, 1>> >>, << <<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >> >>
ASSUME TLCSet(2, TLCEval([ i \in 1..Len(GS) |-> MkAlg(P, N, GS[i]) ]))
Mats == IF N = 2 THEN [ 1..2 -> [ 1..2 -> 0..P-1 ] ]
        ELSE { X \in [ 1..3 -> [ 1..3 -> 0..1 ] ] : X[3][1] = 0 /\ X[1][2] = 1 }
Ms == SetToSeq(Mats)
VARIABLES vA, vM, vK
Init == vA \in 1..Len(GS) /\ vM \in 1..Len(Ms) /\ vK = 0
Next == vK = 0 /\ vK' \in 1..Len(Ms) /\ UNCHANGED <<vA, vM>>
Spec == Init /\ [][Next]_<<vA, vM, vK>>
A == TLCGet(2)[vA]
M == Ms[vM]
K == Ms[vK]
BB == { Blade(N, b) : b \in 0..Pow2[N]-1 }
ScP(x, y) == Mul(A, x, Rev(P, y))[1]
Det1 == vK = 0 => Outermorph(A, M, PSeudo(N)) = Scale(P, Det(P, M), PSeudo(N))
Outer == vK = 0 => \A x, y \in BB : Outermorph(A, M, Wedge(P, x, y)) = Wedge(P, Outermorph(A, M, x), Outermorph(A, M, y))
Unit == vK = 0 => Outermorph(A, M, Scal(N, 1)) = Scal(N, 1)
Adj == (vK = 0 /\ Det(P, A.g) # 0) => \A x, y \in BB : ScP(Outermorph(A, M, x), y) = ScP(x, Outermorph(A, AdjMat(A, M), y))
Inv == (vK = 0 /\ Det(P, M) # 0) => \A x \in BB : Outermorph(A, MatInv(P, M), Outermorph(A, M, x)) = x
Func == vK # 0 => \A x \in BB : Outermorph(A, MatMul(P, M, K), x) = Outermorph(A, M, Outermorph(A, K, x))
DetMul == vK # 0 => Det(P, MatMul(P, M, K)) = Md(P, Det(P, M) * Det(P, K))
TraceSym == vK # 0 => MatTrace(P, MatMul(P, M, K)) = MatTrace(P, MatMul(P, K, M))
AdjAnti == (vK # 0 /\ Det(P, A.g) # 0) => AdjMat(A, MatMul(P, M, K)) = MatMul(P, AdjMat(A, K), AdjMat(A, M))
(* the sandwich by a vector is a transformation that preserves the form *)
Versor == vK = 0 => \A v \in { Vec(N, M[i]) : i \in 1..N } :
   IF Mul(A, v, v)[1] = 0 THEN TRUE
   ELSE LET iv == Scale(P, InvMod(P, Mul(A, v, v)[1]), v)
            X == MatT([ j \in 1..N |-> [ i \in 1..N |-> Mul(A, Mul(A, GInvol(P, v), Blade(N, Pow2[j-1])), iv)[Pow2[i-1]+1] ] ])
        IN /\ IsSandwich(A, v, X) /\ Det(P, X) = P - 1
           /\ \A x, y \in BB : Outermorph(A, X, Mul(A, x, y)) = Mul(A, Outermorph(A, X, x), Outermorph(A, X, y))
=============================================================================
