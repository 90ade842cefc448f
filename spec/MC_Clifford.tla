---- MODULE MC_Clifford ----
(* Exhaustive check of the laws of the specification's products over Z/m: every symmetric form *)
(* of the given dimension is an initial state; every pair (triple for blades) is examined.       *)
EXTENDS Clifford
CONSTANTS MM, NN
(* variable names must not clash with any bound name in an extended module: TLC would then *)
(* treat the constant tables as state dependent and evaluate them again at every use       *)
VARIABLES vForm, vAlg, vPhase
vars == <<vForm, vAlg, vPhase>>
F == 0..(MM-1)
Forms == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Init == vForm \in Forms /\ vAlg = <<>> /\ vPhase = "new"
Build == vPhase = "new" /\ vAlg' = MkAlg(MM, NN, vForm) /\ vPhase' = "built" /\ UNCHANGED vForm
Next == Build
Spec == Init /\ [][Next]_vars
N == Pow2[NN]
B(k) == Blade(NN, k)
Blades == 0..(N-1)
MVs == [1..N -> F]
Vecs == { Vec(NN, v) : v \in [1..NN -> F] }
built == vPhase = "built"
\* vector squares
VecSq == built => \A v \in Vecs : LET q == Mul(vAlg, v, v) IN
           /\ IsScalar(q)
           /\ q[1] = SumSeq(MM, [k \in 1..(NN*NN) |->
                LET i == ((k-1) \div NN)+1  j == ((k-1) % NN)+1 IN
                 v[Pow2[i-1]+1] * v[Pow2[j-1]+1] * vForm[i][j] ])
\* associativity on all blade triples (hence, by multilinearity, everywhere)
Assoc == built => \A a, b, c \in Blades :
           Mul(vAlg, Mul(vAlg, B(a), B(b)), B(c)) = Mul(vAlg, B(a), Mul(vAlg, B(b), B(c)))
WAssoc == built => \A a, b, c \in Blades :
           Wedge(MM, Wedge(MM, B(a), B(b)), B(c)) = Wedge(MM, B(a), Wedge(MM, B(b), B(c)))
\* the exterior product is the top grade part of the product
WGrade == built => \A a, b \in Blades :
           Wedge(MM, B(a), B(b)) = GradePart(Mul(vAlg, B(a), B(b)), Gr(a) + Gr(b))
Anti == built => \A a, b \in Blades :
           /\ Rev(MM, Mul(vAlg, B(a), B(b))) = Mul(vAlg, Rev(MM, B(b)), Rev(MM, B(a)))
           /\ GInvol(MM, Mul(vAlg, B(a), B(b))) = Mul(vAlg, GInvol(MM, B(a)), GInvol(MM, B(b)))
\* contraction adjunction: (a ^ b) * c = a * (b _| c) scalar parts
Adj == built => \A a, b, c \in Blades :
           ScalProd(vAlg, Wedge(MM, B(a), B(b)), B(c)) = ScalProd(vAlg, B(a), LC(vAlg, B(b), B(c)))
LCMirror == built => \A a, b \in Blades :
           Rev(MM, LC(vAlg, B(a), B(b))) = RC(vAlg, Rev(MM, B(b)), Rev(MM, B(a)))
DotSplit == built => \A a, b \in Blades :
           /\ HDot(vAlg, B(a), B(b)) = IF a = 0 \/ b = 0 THEN Zero(NN)
                    ELSE IF Gr(a) <= Gr(b) THEN LC(vAlg, B(a), B(b)) ELSE RC(vAlg, B(a), B(b))
           /\ LC(vAlg, B(a), B(b)) = GradePart(Mul(vAlg, B(a), B(b)), IF Gr(b) >= Gr(a) THEN Gr(b) - Gr(a) ELSE 99)
\* the shortcut for orthogonal bases is the general construction
OrthoEq == built /\ IsDiag(NN, vForm) => vAlg.T = TableOf(MM, NN, vForm)
====
