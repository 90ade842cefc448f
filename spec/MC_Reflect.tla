---- MODULE MC_Reflect ----
(* Laws of reflection and projection in every non-null blade, for every diagonal form and a list  *)
(* of oblique ones, over Z/m; rotations from rotors x with R R~ = 1.                              *)
EXTENDS Geometry
CONSTANTS MM, NN
VARIABLES vForm, vAlg, vB
vars == <<vForm, vAlg, vB>>
F == 0..(MM-1)
N == Pow2[NN]
Forms == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] /\ (i # j /\ i + j # 3 => h[i][j] = 0) }
Vecs == { Vec(NN, v) : v \in [1..NN -> F] }
RECURSIVE WedgeAll(_)
WedgeAll(r) == IF r = 0 THEN { Scal(NN, 1) }
               ELSE { y \in { Wedge(MM, x, v) : x \in WedgeAll(r-1), v \in Vecs } : ~IsZero(y) }
Blades == UNION { WedgeAll(r) : r \in 0..NN }
Init == vForm \in Forms /\ vAlg = <<>> /\ vB = <<>>
Build == vAlg = <<>> /\ vAlg' = MkAlg(MM, NN, vForm) /\ UNCHANGED <<vForm, vB>>
Pick == vAlg # <<>> /\ vB = <<>> /\ vB' \in { b \in Blades : QForm(vAlg, b) # 0 } /\ UNCHANGED <<vForm, vAlg>>
Next == Build \/ Pick
Spec == Init /\ [][Next]_vars
On == vB # <<>>
In(v) == IsZero(Wedge(MM, v, vB))
Orth(v) == IsZero(LC(vAlg, v, vB)) /\ TheGrade(vB) > 0
R(x) == ReflOf(vAlg, x, vB)
P(x) == ProjOf(vAlg, x, vB)
Basis == { Blade(NN, M) : M \in 0..(N-1) }
Fixes == On => \A v \in Vecs : (In(v) => R(v) = v /\ P(v) = v) /\ (Orth(v) => R(v) = Neg(MM, v) /\ IsZero(P(v)))
Outer == On => \A x, y \in Basis : /\ R(Wedge(MM, x, y)) = Wedge(MM, R(x), R(y))
                                    /\ P(Wedge(MM, x, y)) = Wedge(MM, P(x), P(y))
                                    /\ R(R(x)) = x /\ P(P(x)) = P(x)
                                    /\ ScalProd(vAlg, Rev(MM, R(x)), R(y)) = ScalProd(vAlg, Rev(MM, x), y)
====
