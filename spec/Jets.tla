-------------------------------- MODULE Jets --------------------------------
(***************************************************************************)
(* Multivector fields and differential operators over a constant metric,   *)
(* known to finite order at a point.                                       *)
(*                                                                         *)
(* A field is its jet: the sequence of the values of all its derivatives   *)
(* up to some total order, in the order of a table mi of multi-indices     *)
(* sorted by total degree (so a jet known to a lower order is a prefix).   *)
(* The empty jet stands for the zero field.                                *)
(*                                                                         *)
(* An operator is [cmp, t]: t[a] is the jet of the coefficient of the      *)
(* derivative mi[a]; cmp tells that it acts on the operand on its left.    *)
(*   D op F = sum_a t[a] op d^a F          (cmp = FALSE)                   *)
(*   F op D = sum_a (d^a F) op t[a]        (cmp = TRUE)                    *)
(***************************************************************************)
EXTENDS Calculus

RECURSIVE Binom(_, _)
Binom(a, b) == IF b < 0 \/ b > a THEN 0 ELSE IF b = 0 THEN 1 ELSE Binom(a-1, b-1) + Binom(a-1, b)

MDeg(al) == FoldLeft(LAMBDA acc, x : acc + x, 0, al)

(* tables for multi-indices: sums, and the splittings of the Leibniz rule *)
MkTab(mi) ==
  LET J == Len(mi)  n == Len(mi[1])
      Ix(al) == LET S == { j \in 1..J : mi[j] = al } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
      Pl(a, b) == [ i \in 1..n |-> a[i] + b[i] ]
      Mi(a, b) == [ i \in 1..n |-> a[i] - b[i] ]
      Le(a, b) == \A i \in 1..n : a[i] <= b[i]
      Bn(a, b) == FoldLeft(LAMBDA acc, i : acc * Binom(a[i], b[i]), 1, [ i \in 1..n |-> i ])
      deg == TLCEval([ j \in 1..J |-> MDeg(mi[j]) ])
  IN [ J |-> J, n |-> n, mi |-> mi, deg |-> deg,
       sum |-> TLCEval([ a \in 1..J |-> TLCEval([ b \in 1..J |-> Ix(Pl(mi[a], mi[b])) ]) ]),
       spl |-> TLCEval([ a \in 1..J |-> TLCEval(
                 LET gs == SelectSeq([ j \in 1..J |-> j ], LAMBDA j : Le(mi[j], mi[a]))
                 IN [ k \in 1..Len(gs) |-> << gs[k], Ix(Mi(mi[a], mi[gs[k]])), Bn(mi[a], mi[gs[k]]) >> ]) ]),
       unit |-> TLCEval([ i \in 1..n |-> Ix([ k \in 1..n |-> IF k = i THEN 1 ELSE 0 ]) ]),
       cnt |-> TLCEval([ d \in 1..deg[J]+1 |-> Cardinality({ j \in 1..J : deg[j] < d }) ]) ]

SortedByDegree(T) == \A a, b \in 1..T.J : a < b => T.deg[a] <= T.deg[b]

(* order to which a nonzero jet is known *)
Order(T, F) == T.deg[Len(F)]
Known(T, k) == T.cnt[k + 1]                 \* number of derivatives of order <= k

JAdd(m, F, G) ==
  IF F = <<>> THEN G ELSE IF G = <<>> THEN F
  ELSE TLCEval([ a \in 1..(IF Len(F) < Len(G) THEN Len(F) ELSE Len(G)) |-> Add(m, F[a], G[a]) ])
JScale(m, c, F) == TLCEval([ a \in 1..Len(F) |-> Scale(m, c, F[a]) ])

(* the derivative d^a of a field *)
JShift(T, F, a) ==
  IF F = <<>> THEN F
  ELSE LET k == Order(T, F) - T.deg[a] IN
    IF Assert(k >= 0, "jet order exhausted")
    THEN TLCEval([ b \in 1..Known(T, k) |-> F[T.sum[a][b]] ]) ELSE <<>>

(* Leibniz rule *)
JMul(A, T, op, F, G) ==
  IF F = <<>> \/ G = <<>> THEN <<>>
  ELSE LET L == IF Len(F) < Len(G) THEN Len(F) ELSE Len(G) IN
    TLCEval([ a \in 1..L |->
      FoldLeft(LAMBDA acc, s : IF IsZero(F[s[1]]) \/ IsZero(G[s[2]]) THEN acc
                  ELSE Add(A.m, acc, Scale(A.m, s[3], ProdOf(A, op, F[s[1]], G[s[2]]))),
               Zero(A.n), T.spl[a]) ])

-----------------------------------------------------------------------------
OZero(T, cmp) == [ cmp |-> cmp, t |-> TLCEval([ a \in 1..T.J |-> <<>> ]) ]
OAdd(m, T, D, E) == [ D EXCEPT !.t = TLCEval([ a \in 1..T.J |-> JAdd(m, D.t[a], E.t[a]) ]) ]
OScale(m, T, c, D) == [ D EXCEPT !.t = TLCEval([ a \in 1..T.J |-> JScale(m, c, D.t[a]) ]) ]
(* the operator multiplication by a field *)
OMult(T, cmp, F) == [ cmp |-> cmp, t |-> TLCEval([ a \in 1..T.J |-> IF a = 1 THEN F ELSE <<>> ]) ]

(* application; the first derivative of the table is the identity *)
OApply(A, T, op, D, F) ==
  FoldLeft(LAMBDA acc, a : IF D.t[a] = <<>> \/ F = <<>> THEN acc
              ELSE LET G == JShift(T, F, a) IN
                JAdd(A.m, acc, IF D.cmp THEN JMul(A, T, op, G, D.t[a]) ELSE JMul(A, T, op, D.t[a], G)),
           <<>>, [ a \in 1..T.J |-> a ])

(* multiplication of the coefficients by a field, on the side away from the operand *)
OMv(A, T, op, F, D) == [ D EXCEPT !.t = TLCEval([ a \in 1..T.J |-> JMul(A, T, op, F, D.t[a]) ]) ]
OMvR(A, T, op, D, F) == [ D EXCEPT !.t = TLCEval([ a \in 1..T.J |-> JMul(A, T, op, D.t[a], F) ]) ]

(* coefficient by coefficient:  d^a (N d^b) = sum_g C(a,g) (d^g N) d^(a-g+b) *)
OSet(m, T, D, i, F) == IF Assert(i # 0, "operator order exhausted")
                       THEN [ D EXCEPT !.t[i] = JAdd(m, D.t[i], F) ] ELSE D
ODer(A, T, a, E) ==       \* the operator d^a composed with E
  FoldLeft(LAMBDA acc, b : IF E.t[b] = <<>> THEN acc
     ELSE FoldLeft(LAMBDA acc2, s : OSet(A.m, T, acc2, T.sum[s[2]][b], JScale(A.m, s[3], JShift(T, E.t[b], s[1]))),
                   acc, T.spl[a]),
     OZero(T, E.cmp), [ b \in 1..T.J |-> b ])

(* product of two operators acting on the same side *)
OProd(A, T, op, D, E) ==
  IF ~D.cmp
  THEN FoldLeft(LAMBDA acc, a : IF D.t[a] = <<>> THEN acc
                   ELSE OAdd(A.m, T, acc, OMv(A, T, op, D.t[a], ODer(A, T, a, E))),
                OZero(T, FALSE), [ a \in 1..T.J |-> a ])
  ELSE FoldLeft(LAMBDA acc, b : IF E.t[b] = <<>> THEN acc
                   ELSE OAdd(A.m, T, acc, OMvR(A, T, op, ODer(A, T, b, D), E.t[b])),
                OZero(T, TRUE), [ b \in 1..T.J |-> b ])

(* values at the point *)
JVal(A, F) == IF F = <<>> THEN Zero(A.n) ELSE F[1]
OVal(A, T, D) == TLCEval([ a \in 1..T.J |-> JVal(A, D.t[a]) ])
IsZeroJet(F) == \A a \in 1..Len(F) : IsZero(F[a])
=============================================================================
