------------------------------ MODULE Clifford ------------------------------
(***************************************************************************)
(* Geometric (Clifford) algebra over Z/m (m prime) or over Z (m = 0), for  *)
(* an arbitrary symmetric bilinear form, written from the definitions.     *)
(*                                                                         *)
(* A basis blade is a bit mask 0..2^n-1 (bit i-1 set = e_i is a factor, in *)
(* increasing order).  A multivector is a sequence of length 2^n; entry    *)
(* M+1 is the coefficient of blade M.                                      *)
(*                                                                         *)
(* The geometric product is built from the contraction and the exterior    *)
(* product by Chevalley's construction                                     *)
(*     v x  =  v _| x  +  v ^ x                                            *)
(*     (v ^ R) x  =  v (R x)  -  (v _| R) x                                *)
(* which shares nothing with galgebra's reduction of words in the basis    *)
(* vectors.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Md(m, x) == IF m = 0 THEN x ELSE x % m

Pow2 == TLCEval([k \in 0..12 |-> 2^k])

Bit(M, i) == (M \div Pow2[i-1]) % 2          \* is e_i (1-based) a factor of M

Bits(M) == { i \in 1..8 : Bit(M, i) = 1 }

PopTab == TLCEval([ M \in 0..255 |-> Cardinality(Bits(M)) ])
Gr(M) == PopTab[M]

SumSeq(m, s) == FoldLeft(LAMBDA a, b : Md(m, a + b), 0, s)

(* (no use of the Bitwise module: TLC does not cache constants defined through RECURSIVE operators) *)
SubTab == TLCEval([ A \in 0..63 |-> TLCEval([ B \in 0..63 |-> Bits(A) \subseteq Bits(B) ]) ])
SubMask(A, B) == SubTab[A][B]

(* masks of one grade, canonical order of the blades: by grade, then       *)
(* lexicographic order of the index tuples                                 *)
LexLess(A, B) ==    \* A, B of equal grade
  LET D == { i \in 1..8 : Bit(A, i) # Bit(B, i) } IN
    IF D = {} THEN FALSE ELSE Bit(A, CHOOSE i \in D : \A j \in D : i <= j) = 1
BladeOrder(n) ==
  SetToSortSeq(0..(Pow2[n]-1),
     LAMBDA A, B : Gr(A) < Gr(B) \/ (Gr(A) = Gr(B) /\ LexLess(A, B)))

(* sign of the permutation that sorts A followed by B; 0 when they share a factor *)
WSignDef(A, B) ==
  IF Bits(A) \cap Bits(B) # {} THEN 0
  ELSE LET inv == Cardinality({ p \in Bits(A) \X Bits(B) : p[1] > p[2] })
       IN IF inv % 2 = 0 THEN 1 ELSE -1
WSignTab == TLCEval([ A \in 0..63 |-> TLCEval([ B \in 0..63 |-> WSignDef(A, B) ]) ])
WSign(A, B) == WSignTab[A][B]

-----------------------------------------------------------------------------
(* multivectors *)
Zero(n) == TLCEval([ k \in 1..Pow2[n] |-> 0 ])
Blade(n, M) == TLCEval([ k \in 1..Pow2[n] |-> IF k = M + 1 THEN 1 ELSE 0 ])
Scal(n, c) == TLCEval([ k \in 1..Pow2[n] |-> IF k = 1 THEN c ELSE 0 ])
Vec(n, v) == TLCEval([ k \in 1..Pow2[n] |->
                 LET S == { i \in 1..n : Pow2[i-1] = k - 1 } IN
                   IF S = {} THEN 0 ELSE v[CHOOSE i \in S : TRUE] ])
Add(m, a, b) == TLCEval([ k \in 1..Len(a) |-> Md(m, a[k] + b[k]) ])
Sub(m, a, b) == TLCEval([ k \in 1..Len(a) |-> Md(m, a[k] - b[k]) ])
Neg(m, a) == TLCEval([ k \in 1..Len(a) |-> Md(m, 0 - a[k]) ])
Scale(m, c, a) == TLCEval([ k \in 1..Len(a) |-> Md(m, c * a[k]) ])
IsZero(a) == \A k \in 1..Len(a) : a[k] = 0

GradePart(a, r) == TLCEval([ k \in 1..Len(a) |-> IF Gr(k-1) = r THEN a[k] ELSE 0 ])
GradesOf(a) == { Gr(k-1) : k \in { j \in 1..Len(a) : a[j] # 0 } }
EvenPart(a) == TLCEval([ k \in 1..Len(a) |-> IF Gr(k-1) % 2 = 0 THEN a[k] ELSE 0 ])
OddPart(a)  == TLCEval([ k \in 1..Len(a) |-> IF Gr(k-1) % 2 = 1 THEN a[k] ELSE 0 ])
RevSgn(r) == IF (r * (r-1)) \div 2 % 2 = 0 THEN 1 ELSE -1
InvSgn(r) == IF r % 2 = 0 THEN 1 ELSE -1
Rev(m, a)   == TLCEval([ k \in 1..Len(a) |-> Md(m, RevSgn(Gr(k-1)) * a[k]) ])
GInvol(m, a) == TLCEval([ k \in 1..Len(a) |-> Md(m, InvSgn(Gr(k-1)) * a[k]) ])
CConj(m, a) == TLCEval([ k \in 1..Len(a) |-> Md(m, RevSgn(Gr(k-1)) * InvSgn(Gr(k-1)) * a[k]) ])

-----------------------------------------------------------------------------
(* exterior product: no metric *)
Wedge(m, a, b) == TLCEval(
  [ k \in 1..Len(a) |->
      FoldLeft(LAMBDA acc, j :
          IF a[j] = 0 \/ ~SubMask(j-1, k-1) THEN acc
          ELSE Md(m, acc + a[j] * WSign(j-1, (k-1) - (j-1)) * b[(k-1) - (j-1) + 1]),
        0, [ j \in 1..Len(a) |-> j ]) ])

(* contraction of basis vector i onto blade J under the form g, as a multivector *)
VecOntoBlade(m, n, g, i, J) == TLCEval(
  [ k \in 1..Pow2[n] |->
      LET S == { j \in Bits(J) : J - Pow2[j-1] = k - 1 } IN
        IF S = {} THEN 0
        ELSE LET j == CHOOSE j \in S : TRUE
                 pos == Cardinality({ l \in Bits(J) : l < j })
             IN Md(m, (IF pos % 2 = 0 THEN 1 ELSE -1) * g[i][j]) ])

LinComb(m, n, c, rows) ==   \* sum_k c[k] * rows[k]
  FoldLeft(LAMBDA acc, k : IF c[k] = 0 THEN acc ELSE Add(m, acc, Scale(m, c[k], rows[k])),
           Zero(n), [ k \in 1..Len(c) |-> k ])

(* table of the geometric product: T[I+1][J+1] = e_I e_J *)
GeoTable(m, n, g) ==
  LET N == Pow2[n]
      C == TLCEval([ i \in 1..n |-> [ J \in 1..N |-> TLCEval(VecOntoBlade(m, n, g, i, J-1)) ] ])
      (* e_i times multivector x *)
      LV(i, x) == Add(m, LinComb(m, n, x, C[i]), Wedge(m, Blade(n, Pow2[i-1]), x))
      Low(I) == CHOOSE i \in Bits(I) : \A j \in Bits(I) : i <= j
      Row(rows, I) ==
        IF I = 0 THEN [ J \in 1..N |-> Blade(n, J-1) ]
        ELSE LET i == Low(I)
                 R == I - Pow2[i-1]
                 cr == C[i][R+1]
             IN [ J \in 1..N |->
                   TLCEval(Sub(m, LV(i, rows[R+1][J]),
                       LinComb(m, n, SubSeq(cr, 1, Len(rows)),
                               [ k \in 1..Len(rows) |-> rows[k][J] ]))) ]
  IN FoldLeft(LAMBDA rows, I : Append(rows, TLCEval(Row(rows, I))), <<>>, [ k \in 1..N |-> k-1 ])

(* sparse form: T[I+1][J+1] = sequence of <<K+1, coefficient>> *)
SparseRow(x) == SelectSeq([ k \in 1..Len(x) |-> <<k, x[k]>> ], LAMBDA e : e[2] # 0)
TableOf(m, n, g) ==
  LET T == GeoTable(m, n, g) IN
    TLCEval([ I \in 1..Pow2[n] |-> [ J \in 1..Pow2[n] |-> SparseRow(T[I][J]) ] ])

(* orthogonal bases: e_A e_B is a multiple of one blade (equal to the general table, see MC_Clifford) *)
IsDiag(n, g) == \A i, j \in 1..n : i # j => g[i][j] = 0
OrthoEntry(m, g, A, B) ==
  LET cm  == Bits(A) \cap Bits(B)
      inv == Cardinality({ p \in Bits(A) \X Bits(B) : p[1] > p[2] })
      c   == FoldLeft(LAMBDA acc, i : IF i \in cm THEN Md(m, acc * g[i][i]) ELSE acc,
                      Md(m, IF inv % 2 = 0 THEN 1 ELSE -1), [ i \in 1..8 |-> i ])
      k   == FoldLeft(LAMBDA acc, i : IF i \in cm THEN acc - 2 * Pow2[i-1] ELSE acc, A + B, [ i \in 1..8 |-> i ])
  IN IF c = 0 THEN <<>> ELSE << <<k + 1, c>> >>
OrthoTable(m, n, g) == TLCEval([ I \in 1..Pow2[n] |-> TLCEval([ J \in 1..Pow2[n] |-> OrthoEntry(m, g, I-1, J-1) ]) ])

MkAlg(m, n, g) == [ m |-> m, n |-> n, g |-> g, T |-> IF IsDiag(n, g) THEN OrthoTable(m, n, g) ELSE TableOf(m, n, g) ]

(* sel(r, s, t): keep the grade-t part of (grade r)(grade s) *)
ProdSel(A, a0, b0, sel(_, _, _)) ==
  LET a == TLCEval(a0)  b == TLCEval(b0)
      m == A.m  N == Len(a)
      nb == SelectSeq([ j \in 1..N |-> j ], LAMBDA j : b[j] # 0)
      na == SelectSeq([ j \in 1..N |-> j ], LAMBDA j : a[j] # 0)
  IN FoldLeft(LAMBDA acc, I :
       FoldLeft(LAMBDA acc2, J :
         LET c == Md(m, a[I] * b[J]) IN
           FoldLeft(LAMBDA acc3, e :
                IF sel(Gr(I-1), Gr(J-1), Gr(e[1]-1))
                  THEN [ acc3 EXCEPT ![e[1]] = Md(m, @ + c * e[2]) ] ELSE acc3,
             acc2, A.T[I][J]),
         acc, nb),
       Zero(A.n), na)

AllSel(r, s, t) == TRUE
HDotSel(r, s, t) == r # 0 /\ s # 0 /\ t = (IF r > s THEN r - s ELSE s - r)
LCSel(r, s, t) == t = s - r
RCSel(r, s, t) == t = r - s
ScSel(r, s, t) == t = 0

Mul(A, a, b)  == ProdSel(A, a, b, AllSel)
HDot(A, a, b) == ProdSel(A, a, b, HDotSel)
LC(A, a, b)   == ProdSel(A, a, b, LCSel)
RC(A, a, b)   == ProdSel(A, a, b, RCSel)
ScalProd(A, a, b) == ProdSel(A, a, b, ScSel)

RECURSIVE PowMv(_, _, _)
PowMv(A, a, k) == IF k = 0 THEN Scal(A.n, 1) ELSE Mul(A, PowMv(A, a, k-1), a)

(* inverse of a unit of Z/m, m prime *)
RECURSIVE PowMod(_, _, _)
PowMod(m, b, e) == IF e = 0 THEN 1
   ELSE LET h == PowMod(m, b, e \div 2) s == (h * h) % m IN
          IF e % 2 = 0 THEN s ELSE (s * b) % m
InvMod(m, a) == PowMod(m, a % m, m - 2)
HalfOf(m) == InvMod(m, 2)
(* the c with a = c b, if there is one that is not zero *)
Ratio(m, a, b) ==
  IF IsZero(a) \/ IsZero(b) THEN 0
  ELSE LET k == CHOOSE j \in 1..Len(b) : b[j] # 0
           c == (a[k] * InvMod(m, b[k])) % m
       IN IF a = Scale(m, c, b) THEN c ELSE 0

Comm(A, a, b)  == Scale(A.m, HalfOf(A.m), Sub(A.m, Mul(A, a, b), Mul(A, b, a)))
ACom(A, a, b) == Scale(A.m, HalfOf(A.m), Add(A.m, Mul(A, a, b), Mul(A, b, a)))

PSeudo(n) == Blade(n, Pow2[n]-1)
QForm(A, a) == Mul(A, Rev(A.m, a), a)[1]
IsScalar(a) == \A k \in 2..Len(a) : a[k] = 0
IsVector(a) == \A k \in 1..Len(a) : Gr(k-1) # 1 => a[k] = 0
=============================================================================
