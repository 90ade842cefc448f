------------------------------- MODULE Frames -------------------------------
(* Frames of vectors and their reciprocals, from the definition. *)
EXTENDS Geometry
FrameBlade(A, bs) == FoldLeft(LAMBDA acc, b : Wedge(A.m, acc, b), Scal(A.n, 1), bs)
(* the vectors rs pair with the vectors bs to c times the identity, and lie in their span *)
RecipTo(A, bs, rs, c) ==
  LET E == FrameBlade(A, bs) IN
    /\ Len(rs) = Len(bs)
    /\ \A i \in 1..Len(rs) : /\ IsVector(rs[i])
                             /\ IsZero(E) \/ IsZero(Wedge(A.m, rs[i], E))
                             /\ \A j \in 1..Len(bs) : Mul(A, rs[i], bs[j])[1] = (IF i = j THEN c ELSE 0)
Basis(n) == [ i \in 1..n |-> Blade(n, Pow2[i-1]) ]
ESq(A, bs) == LET E == FrameBlade(A, bs) IN Mul(A, E, E)[1]
(* the constructive form: (-1)^(i-1) (b_1 ^ .. skip i .. ^ b_k) E *)
Omit(bs, i) == SubSeq(bs, 1, i-1) \o SubSeq(bs, i+1, Len(bs))
RecipRaw(A, bs) ==
  LET E == FrameBlade(A, bs) IN
    TLCEval([ i \in 1..Len(bs) |->
       LET d == Mul(A, FrameBlade(A, Omit(bs, i)), E) IN IF i % 2 = 1 THEN d ELSE Neg(A.m, d) ])
(* rs[J] pairs to delta with the basis blades *)
BladesReciprocal(A, rs) ==
  \A I \in 1..Len(rs) : \A J \in 1..Len(rs) :
     Mul(A, rs[I], Blade(A.n, J-1))[1] = (IF I = J THEN 1 ELSE 0)
=============================================================================
