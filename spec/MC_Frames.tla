---- MODULE MC_Frames ----
(* Laws of frames over Z/m: for every form and every two vectors of the dimension,               *)
(*  - the constructive reciprocals satisfy the definition, up to the factor E*E;                 *)
(*  - for the basis of a non-degenerate form the reciprocal vectors are rows of the inverse form, *)
(*    and are unique; reciprocal blades pair to delta.                                            *)
EXTENDS Frames
CONSTANTS MM, NN
VARIABLES vForm, vAlg, vB, vPhase
vars == <<vForm, vAlg, vB, vPhase>>
F == 0..(MM-1)
Forms == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Vecs == { Vec(NN, v) : v \in [1..NN -> F] }
Init == vForm \in Forms /\ vAlg = <<>> /\ vB = <<>> /\ vPhase = "new"
Build == vPhase = "new" /\ vAlg' = MkAlg(MM, NN, vForm) /\ vPhase' = "built" /\ UNCHANGED <<vForm, vB>>
Pick == vPhase = "built" /\ vB' \in Vecs \X Vecs /\ vPhase' = "b" /\ UNCHANGED <<vForm, vAlg>>
Next == Build \/ Pick
Spec == Init /\ [][Next]_vars
Constructive == vPhase = "b" => RecipTo(vAlg, vB, RecipRaw(vAlg, vB), ESq(vAlg, vB))
SumProd(g, x, i) == FoldLeft(LAMBDA acc, k : Md(MM, acc + x[k] * g[k][i]), 0, [ k \in 1..NN |-> k ])
Rows(gi) == [ i \in 1..NN |-> Vec(NN, gi[i]) ]
InverseForm == vPhase = "built" /\ Det(MM, vForm) # 0 =>
  LET gi == MatInv(MM, vForm)  R == Rows(gi) IN
    /\ RecipTo(vAlg, Basis(NN), R, 1)
    /\ ESq(vAlg, Basis(NN)) # 0
    /\ \A i, j \in 1..NN : Mul(vAlg, R[i], R[j])[1] = gi[i][j]
    /\ ESq(vAlg, Basis(NN)) = Md(MM, (IF (NN * (NN-1)) \div 2 % 2 = 0 THEN 1 ELSE -1) * Det(MM, vForm))
BladeRecip == vPhase = "built" /\ Det(MM, vForm) # 0 =>
  LET gi == MatInv(MM, vForm)  R == Rows(gi)
      RB == [ J \in 1..Pow2[NN] |->
              FoldLeft(LAMBDA acc, i : IF i \in Bits(J-1) THEN Wedge(MM, R[i], acc) ELSE acc, Scal(NN, 1),
                       [ i \in 1..NN |-> i ]) ]
  IN BladesReciprocal(vAlg, RB)
Degenerate == vPhase = "built" => (ESq(vAlg, Basis(NN)) = 0) = (Det(MM, vForm) = 0)
(* ordered products of the basis vectors are a basis *)
BaseBlade == vPhase = "built" => \A a, b \in 0..(Pow2[NN]-1) :
   LET x == Add(MM, Blade(NN, a), Scale(MM, 2, Blade(NN, b))) IN
     /\ FromBase(vAlg, ToBase(vAlg, x)) = x
     /\ ToBase(vAlg, FromBase(vAlg, x)) = x
====
