------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Derived notions of geometric algebra, each from its definition: duality,*)
(* blades, versors, inverses, reflections and projections, representation  *)
(* in ordered products of basis vectors.                                   *)
(***************************************************************************)
EXTENDS LinAlg

DualModes == { "I+", "+I", "-I", "I-", "+Iinv", "Iinv+", "-Iinv", "Iinv-" }

(* J is the normalised pseudoscalar (J*J = +1 or -1) *)
DualOf(A, J, mode, x) ==
  LET inv  == mode \in { "+Iinv", "Iinv+", "-Iinv", "Iinv-" }
      neg  == mode \in { "-I", "I-", "-Iinv", "Iinv-" }
      left == mode \in { "+I", "-I", "+Iinv", "-Iinv" }
      sq   == Mul(A, J, J)[1]                          \* +1 or -1
      K    == IF inv THEN Scale(A.m, sq, J) ELSE J     \* J^-1 = sq * J
      y    == IF left THEN Mul(A, K, x) ELSE Mul(A, x, K)
  IN IF neg THEN Neg(A.m, y) ELSE y

OneGrade(x) == Cardinality(GradesOf(x)) = 1
TheGrade(x) == CHOOSE r \in GradesOf(x) : TRUE

(* contraction of the dual basis blade J on x: no metric involved *)
Interior(m, J, x) == TLCEval([ k \in 1..Len(x) |->
   IF Bits(J) \cap Bits(k-1) # {} THEN 0 ELSE Md(m, WSign(J, k-1) * x[J + (k-1) + 1]) ])

(* nonzero outer product of vectors, by the Pluecker relations (exact in every dimension) *)
IsBladeS(m, n, x) ==
  /\ OneGrade(x)
  /\ LET r == TheGrade(x) IN
       r <= 1 \/ \A J \in { M \in 0..(Pow2[n]-1) : Gr(M) = r - 1 } : IsZero(Wedge(m, Interior(m, J, x), x))

(* product of finitely many non-null vectors *)
IsVersorS(A, x) ==
  LET q == Mul(A, x, Rev(A.m, x)) IN
    /\ IsScalar(q) /\ q[1] # 0
    /\ \A i \in 1..A.n :
         IsVector(Mul(A, Mul(A, GInvol(A.m, x), Blade(A.n, Pow2[i-1])), Rev(A.m, x)))

IsInv(A, x, y) == Mul(A, x, y) = Scal(A.n, 1) /\ Mul(A, y, x) = Scal(A.n, 1)
(* the classes of multivectors the simple inverse must handle *)
InvCovered(A, x) ==
  LET x2 == Mul(A, x, x) xr == Mul(A, x, Rev(A.m, x)) IN
    \/ IsScalar(x) /\ x[1] # 0
    \/ IsScalar(x2) /\ x2[1] # 0
    \/ IsScalar(xr) /\ xr[1] # 0 /\ ~IsScalar(x2)

(* inverse of a non-null blade *)
BladeInv(A, b) == Scale(A.m, InvMod(A.m, QForm(A, b)), Rev(A.m, b))
NonNullBlade(A, b) == IsBladeS(A.m, A.n, b) /\ QForm(A, b) # 0
(* reflection in the subspace of the blade b of grade s: sum over r of (-1)^(r(s+1)) b <x>_r b^-1, *)
(* the outermorphism that fixes the vectors in b and negates those orthogonal to it              *)
ReflOf(A, x, b) ==
  LET s == TheGrade(b)
      y == IF s % 2 = 0 THEN GInvol(A.m, x) ELSE x
  IN Mul(A, Mul(A, b, y), BladeInv(A, b))
ProjOf(A, x, b) == Mul(A, LC(A, x, b), BladeInv(A, b))

(* the ordered product e_i e_j ... of the basis vectors in M *)
BaseWord(A, M) ==
  FoldLeft(LAMBDA acc, i : IF i \in Bits(M) THEN Mul(A, acc, Blade(A.n, Pow2[i-1])) ELSE acc,
           Scal(A.n, 1), [ i \in 1..A.n |-> i ])
FromBase(A, s) == LinComb(A.m, A.n, s, [ k \in 1..Len(s) |-> IF s[k] = 0 THEN <<>> ELSE BaseWord(A, k-1) ])
(* the coefficients of x with respect to the ordered products *)
ToBase(A, x) ==
  LET o == Reverse(BladeOrder(A.n))
      st == FoldLeft(LAMBDA acc, M : LET c == acc.rem[M+1] IN
                       IF c = 0 THEN acc
                       ELSE [ rem |-> Sub(A.m, acc.rem, Scale(A.m, c, BaseWord(A, M))), co |-> [ acc.co EXCEPT ![M+1] = c ] ],
                     [ rem |-> x, co |-> Zero(A.n) ], o)
  IN st.co

CanonList(n, x) == LET o == BladeOrder(n) IN [ k \in 1..Len(o) |-> x[o[k]+1] ]
CanonGrade(n, x, r) ==
  LET o == SelectSeq(BladeOrder(n), LAMBDA b : Gr(b) = r) IN [ k \in 1..Len(o) |-> x[o[k]+1] ]
(* the multivector of grade r whose first coefficients in canonical order are the entries of c *)
FromCanon(n, c, r) ==
  LET o == SelectSeq(BladeOrder(n), LAMBDA b : Gr(b) = r)
  IN [ k \in 1..Pow2[n] |-> IF \E j \in 1..Len(c) : o[j] = k - 1
                             THEN c[CHOOSE j \in 1..Len(c) : o[j] = k - 1] ELSE 0 ]
PureGrade(x) ==
  LET gs == GradesOf(x) IN
    IF gs = {} THEN 0
    ELSE LET mx == CHOOSE q \in gs : \A r \in gs : r <= q IN
           IF Cardinality(gs) = 1 THEN mx ELSE 0 - mx
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
(* sum over the grades of the absolute quadratic form (integers) *)
Mag2(A, x) == FoldLeft(LAMBDA acc, k : acc + AbsI(QForm(A, GradePart(x, k-1))), 0, [ k \in 1..(A.n+1) |-> k ])
=============================================================================
