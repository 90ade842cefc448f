---- MODULE MC_Versor ----
(* The versor criterion (x x~ a non-zero scalar and the twisted adjoint action preserves vectors)  *)
(* against the definition (products of non-null vectors), and the Pluecker criterion for blades    *)
(* against the definition (non-zero outer products of vectors), for every diagonal form that is    *)
(* not zero, over Z/m.  The products are generated as a state machine.                             *)
EXTENDS Geometry
CONSTANTS MM, NN
VARIABLES vForm, vAlg, vX, vPhase
vars == <<vForm, vAlg, vX, vPhase>>
F == 0..(MM-1)
N == Pow2[NN]
Diag == { [i \in 1..NN |-> [j \in 1..NN |-> IF i = j THEN d[i] ELSE 0]] : d \in [1..NN -> F] }
Forms == { h \in Diag : \E i \in 1..NN : h[i][i] # 0 }
Vecs == { Vec(NN, v) : v \in [1..NN -> F] }
NonNull(A) == { v \in Vecs : QForm(A, v) # 0 }
MVs == [1..N -> F]
RECURSIVE Closure(_, _, _, _)
Closure(A, W, New, V) ==
  LET T == { Mul(A, s, v) : s \in New, v \in V } \ W
  IN IF T = {} THEN W ELSE Closure(A, W \cup T, T, V)
Init == vForm \in Forms /\ vAlg = <<>> /\ vX = {} /\ vPhase = "new"
Build == vPhase = "new" /\ vAlg' = MkAlg(MM, NN, vForm) /\ vPhase' = "built" /\ UNCHANGED <<vForm, vX>>
Gen == vPhase = "built" /\ vX' = Closure(vAlg, {Scal(NN, 1)}, {Scal(NN, 1)}, NonNull(vAlg)) /\ vPhase' = "gen" /\ UNCHANGED <<vForm, vAlg>>
Next == Build \/ Gen
Spec == Init /\ [][Next]_vars
VersorExact == vPhase = "gen" => { x \in MVs : IsVersorS(vAlg, x) } = vX \cup { Scale(MM, c, x) : c \in 1..(MM-1), x \in vX }
RECURSIVE WedgeAll(_)
WedgeAll(r) == IF r = 0 THEN { Scal(NN, c) : c \in 1..(MM-1) }
               ELSE { y \in { Wedge(MM, x, v) : x \in WedgeAll(r-1), v \in Vecs } : ~IsZero(y) }
BladeExact == vPhase = "gen" /\ (\A i \in 1..NN : vForm[i][i] # 0) =>
   { x \in MVs : IsBladeS(MM, NN, x) } = UNION { WedgeAll(r) : r \in 0..NN }
====
