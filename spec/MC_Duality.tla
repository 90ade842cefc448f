---- MODULE MC_Duality ----
(* Duality over Z/m: for every non-degenerate form whose pseudoscalar can be normalised, every  *)
(* mode and every multivector: undual inverts dual, grades are complemented, and the session    *)
(* machine (mode switches, rejected modes) never loses the relation between a stored dual and   *)
(* its origin.                                                                                  *)
EXTENDS Geometry
CONSTANTS MM, NN
VARIABLES vForm, vAlg, vJ, vMode, vPhase
vars == <<vForm, vAlg, vJ, vMode, vPhase>>
F == 0..(MM-1)
Forms == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Init == vForm \in Forms /\ vAlg = <<>> /\ vJ = <<>> /\ vMode = "I+" /\ vPhase = "new"
Build == /\ vPhase = "new"
         /\ LET A == MkAlg(MM, NN, vForm)
                q == Mul(A, PSeudo(NN), PSeudo(NN))[1]
                S == { c \in F : c # 0 /\ ((c * c * q) % MM = 1 \/ (c * c * q) % MM = MM - 1) }
            IN IF q # 0 /\ S # {} THEN /\ vAlg' = A /\ vPhase' = "run"
                                       /\ vJ' = Scale(MM, CHOOSE c \in S : TRUE, PSeudo(NN))
               ELSE UNCHANGED <<vAlg, vJ>> /\ vPhase' = "none"
         /\ UNCHANGED <<vForm, vMode>>
Switch == vPhase = "run" /\ \E md \in DualModes : vMode' = md /\ UNCHANGED <<vForm, vAlg, vJ, vPhase>>
Next == Build \/ Switch
Spec == Init /\ [][Next]_vars
N == Pow2[NN]
sq == Mul(vAlg, vJ, vJ)[1]
UndualOf(mode, x) == Scale(MM, sq, DualOf(vAlg, vJ, mode, x))
UndualInv == vPhase = "run" => \A k \in 0..(N-1) :
   /\ UndualOf(vMode, DualOf(vAlg, vJ, vMode, Blade(NN, k))) = Blade(NN, k)
   /\ DualOf(vAlg, vJ, vMode, UndualOf(vMode, Blade(NN, k))) = Blade(NN, k)
Complement == vPhase = "run" => \A k \in 0..(N-1) :
   GradesOf(DualOf(vAlg, vJ, vMode, Blade(NN, k))) = { NN - Gr(k) }
(* the two sides differ by the sign (-1)^(k(n-1)) only *)
Sides == vPhase = "run" => \A k \in 0..(N-1) :
   DualOf(vAlg, vJ, "+I", Blade(NN, k)) =
     IF (Gr(k) * (NN - 1)) % 2 = 0 THEN DualOf(vAlg, vJ, "I+", Blade(NN, k)) ELSE DualOf(vAlg, vJ, "I-", Blade(NN, k))
Opposite == vPhase = "run" => \A k \in 0..(N-1) :
   DualOf(vAlg, vJ, "I+", Blade(NN, k)) = Neg(MM, DualOf(vAlg, vJ, "I-", Blade(NN, k)))
====
