---- MODULE MC_Inverse ----
(* Inverses over Z/m, every form and every multivector of the dimension:                          *)
(*  - being invertible (non-singular left multiplication) is having a two-sided inverse;          *)
(*  - a one-sided inverse is two-sided; the inverse is unique;                                    *)
(*  - the covered classes are invertible, by the stated formulas.                                 *)
EXTENDS Geometry
CONSTANTS MM, NN
VARIABLES vForm, vAlg, vX, vPhase
vars == <<vForm, vAlg, vX, vPhase>>
F == 0..(MM-1)
N == Pow2[NN]
Forms == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
MVs == [1..N -> F]
Init == vForm \in Forms /\ vAlg = <<>> /\ vX = <<>> /\ vPhase = "new"
Build == vPhase = "new" /\ vAlg' = MkAlg(MM, NN, vForm) /\ vPhase' = "built" /\ UNCHANGED <<vForm, vX>>
Pick == vPhase = "built" /\ vX' \in MVs /\ vPhase' = "x" /\ UNCHANGED <<vForm, vAlg>>
Next == Build \/ Pick
Spec == Init /\ [][Next]_vars
One == Scal(NN, 1)
Has == vPhase = "x" =>
  LET R == { y \in MVs : Mul(vAlg, vX, y) = One } IN
    /\ (R # {}) = Invertible(vAlg, vX)
    /\ Cardinality(R) <= 1
    /\ \A y \in R : Mul(vAlg, y, vX) = One
Covered == vPhase = "x" => (InvCovered(vAlg, vX) => Invertible(vAlg, vX))
Formula == vPhase = "x" =>
  LET q == Mul(vAlg, vX, Rev(MM, vX)) IN
    IsScalar(q) /\ q[1] # 0 => IsInv(vAlg, vX, Scale(MM, InvMod(MM, q[1]), Rev(MM, vX)))
====
