------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* What a printed line means.  A line is a sequence of tokens              *)
(*   <<"num", value, integer>>  <<"atom", value, 0>>  <<"vec", mask, 0>>    *)
(*   <<"D", id, 0>> (0 is the operator that differentiates nothing)        *)
(*   and + - * / ** ^ ( ) { } frac NL                                      *)
(* read with the usual precedence.  The value is linear in the blades and  *)
(* in the derivative symbols: a map from <<mask, base, D, order>> to its   *)
(* coefficient, where base = 1 for an ordered product of basis vectors and *)
(* order tells on which side of the derivative the blade stands.           *)
(***************************************************************************)
EXTENDS Geometry

Sc(m, c) == IF Md(m, c) = 0 THEN [ k \in {} |-> 0 ] ELSE [ k \in {<<0, 0, 0, 0>>} |-> Md(m, c) ]
One(key) == [ k \in {key} |-> 1 ]
Coef(a, k) == IF k \in DOMAIN a THEN a[k] ELSE 0
Tidy(a) == TLCEval([ k \in { x \in DOMAIN a : a[x] # 0 } |-> a[k] ])
LAdd(m, a, b) == Tidy([ k \in DOMAIN a \cup DOMAIN b |-> Md(m, Coef(a, k) + Coef(b, k)) ])
LScale(m, c, a) == Tidy([ k \in DOMAIN a |-> Md(m, c * a[k]) ])
IsSc(a) == DOMAIN a \subseteq {<<0, 0, 0, 0>>}
ScOf(a) == Coef(a, <<0, 0, 0, 0>>)

BadKey == <<0-1, 0, 0, 0>>
Top(M) == CHOOSE i \in Bits(M) : \A j \in Bits(M) : j <= i
Low(M) == CHOOSE i \in Bits(M) : \A j \in Bits(M) : i <= j
(* two blades side by side are an ordered product of basis vectors, or nothing *)
KMul(x, y) ==
  IF x = BadKey \/ y = BadKey \/ (x[3] # 0 /\ y[3] # 0) THEN BadKey
  ELSE IF x[1] # 0 /\ y[1] # 0 THEN
    IF x[3] = 0 /\ y[3] = 0 /\ (x[2] = 1 \/ Gr(x[1]) = 1) /\ (y[2] = 1 \/ Gr(y[1]) = 1) /\ Top(x[1]) < Low(y[1])
    THEN <<x[1] + y[1], 1, 0, 0>> ELSE BadKey
  ELSE <<x[1] + y[1], IF x[2] + y[2] > 0 THEN 1 ELSE 0, x[3] + y[3],
         IF x[4] + y[4] > 0 THEN x[4] + y[4]
         ELSE IF x[1] # 0 /\ y[3] # 0 THEN 1 ELSE IF x[3] # 0 /\ y[1] # 0 THEN 2 ELSE 0>>
LMul(m, a, b) ==
  LET P == { <<x, y>> : x \in DOMAIN a, y \in DOMAIN b }
      K == { KMul(p[1], p[2]) : p \in P }
  IN IF BadKey \in K THEN One(BadKey)
     ELSE Tidy([ k \in K |-> FoldSet(LAMBDA p, s : Md(m, s + a[p[1]] * b[p[2]]), 0, { p \in P : KMul(p[1], p[2]) = k }) ])
Sane(a) == BadKey \notin DOMAIN a

RECURSIVE PowN(_, _, _)
PowN(m, c, k) == IF k = 0 THEN 1 ELSE IF k % 2 = 0 THEN PowN(m, Md(m, c * c), k \div 2) ELSE Md(m, c * PowN(m, c, k - 1))

No == [ ok |-> FALSE, v |-> [ k \in {} |-> 0 ], p |-> 0 ]
Got(v, p) == IF Sane(v) THEN [ ok |-> TRUE, v |-> v, p |-> p ] ELSE No
K(t, i) == IF i <= Len(t) THEN t[i][1] ELSE "end"

(* e_i ^ e_j ^ ... with increasing indices *)
RECURSIVE BladeR(_, _, _)
BladeR(t, i, M) == IF K(t, i) = "^" THEN IF K(t, i + 1) = "vec" /\ Top(M) < Low(t[i+1][2]) THEN BladeR(t, i + 2, M + t[i+1][2])
                                         ELSE No
                   ELSE Got(One(<<M, 0, 0, 0>>), i)
Close(s) == IF s = "(" THEN ")" ELSE "}"
Starts == { "num", "atom", "vec", "D", "(", "{", "frac" }

RECURSIVE Prim(_, _, _, _), Expo(_, _), Pw(_, _, _, _), TermR(_, _, _, _, _), Sum(_, _, _, _), SumR(_, _, _, _, _)
Prim(m, t, i, jux) ==
  CASE K(t, i) \in { "num", "atom" } -> Got(Sc(m, t[i][2]), i + 1)
    [] K(t, i) = "vec" -> BladeR(t, i + 1, t[i][2])
    [] K(t, i) = "D" -> Got(IF t[i][2] = 0 THEN Sc(m, 1) ELSE One(<<0, 0, t[i][2], 0>>), i + 1)
    [] K(t, i) \in { "(", "{" } -> LET r == Sum(m, t, i + 1, jux) IN
                                     IF r.ok /\ K(t, r.p) = Close(K(t, i)) THEN Got(r.v, r.p + 1) ELSE No
    [] K(t, i) = "frac" /\ K(t, i + 1) = "{" ->
         LET a == Sum(m, t, i + 2, jux) IN
           IF ~a.ok THEN No
           ELSE IF K(t, a.p) # "}" \/ K(t, a.p + 1) # "{" THEN No
           ELSE LET b == Sum(m, t, a.p + 2, jux) IN
                  IF ~b.ok THEN No
                  ELSE IF K(t, b.p) # "}" \/ ~IsSc(b.v) \/ ScOf(b.v) = 0 THEN No
                  ELSE Got(LScale(m, InvMod(m, ScOf(b.v)), a.v), b.p + 1)
    [] OTHER -> No
(* an integer exponent: <<found, exponent, next>> *)
Expo(t, i) ==
  LET br == K(t, i) \in { "(", "{" }
      j == IF br THEN i + 1 ELSE i
      ng == K(t, j) = "-"
      n == IF ng THEN j + 1 ELSE j
  IN IF K(t, n) # "num" \/ (ng /\ ~br) THEN <<FALSE, 0, 0>>
     ELSE IF t[n][3] < 0 \/ (br /\ K(t, n + 1) # Close(K(t, i))) THEN <<FALSE, 0, 0>>
     ELSE <<TRUE, IF ng THEN 0 - t[n][3] ELSE t[n][3], IF br THEN n + 2 ELSE n + 1>>
Pw(m, t, i, jux) ==
  LET r == Prim(m, t, i, jux) IN
    IF ~r.ok THEN No
    ELSE IF K(t, r.p) # "**" THEN r
    ELSE LET e == Expo(t, r.p + 1) IN
           IF ~e[1] \/ ~IsSc(r.v) THEN No
           ELSE IF e[2] < 0 THEN IF ScOf(r.v) = 0 THEN No ELSE Got(Sc(m, PowN(m, InvMod(m, ScOf(r.v)), 0 - e[2])), e[3])
           ELSE Got(Sc(m, PowN(m, ScOf(r.v), e[2])), e[3])
(* a product of powers, quotients from left to right *)
TermR(m, t, i, jux, acc) ==
  IF K(t, i) = "*" \/ (jux /\ K(t, i) \in Starts) THEN
    LET r == Pw(m, t, IF K(t, i) = "*" THEN i + 1 ELSE i, jux) IN
      IF ~r.ok THEN No ELSE LET w == LMul(m, acc, r.v) IN IF Sane(w) THEN TermR(m, t, r.p, jux, w) ELSE No
  ELSE IF K(t, i) = "/" THEN
    LET r == Pw(m, t, i + 1, jux) IN
      IF ~r.ok THEN No
      ELSE IF ~IsSc(r.v) \/ ScOf(r.v) = 0 THEN No
      ELSE TermR(m, t, r.p, jux, LScale(m, InvMod(m, ScOf(r.v)), acc))
  ELSE Got(acc, i)
Term(m, t, i, jux) == LET r == Pw(m, t, i, jux) IN IF r.ok THEN TermR(m, t, r.p, jux, r.v) ELSE No
SumR(m, t, i, jux, acc) ==
  IF K(t, i) \in { "+", "-" } THEN
    LET r == Term(m, t, i + 1, jux) IN
      IF r.ok THEN SumR(m, t, r.p, jux, LAdd(m, acc, LScale(m, IF K(t, i) = "-" THEN 0 - 1 ELSE 1, r.v))) ELSE No
  ELSE Got(acc, i)
Sum(m, t, i, jux) ==
  LET s == IF K(t, i) = "-" THEN 0 - 1 ELSE 1
      r == Term(m, t, IF s = 1 THEN i ELSE i + 1, jux)
  IN IF r.ok THEN SumR(m, t, r.p, jux, LScale(m, s, r.v)) ELSE No

(* a whole printed value: its terms in order, and whether a line begins with each.  A sign joins the terms *)
(* (also across lines), so each but the first has one.                                                   *)
RECURSIVE LinesR(_, _, _, _, _)
LinesR(m, t, i, jux, acc) ==
  IF i = Len(t) + 1 THEN [ ok |-> TRUE, ts |-> acc ]
  ELSE LET nl == K(t, i) = "NL"
           j  == IF nl THEN i + 1 ELSE i
           sg == K(t, j) \in { "+", "-" }
           r  == Term(m, t, IF sg THEN j + 1 ELSE j, jux)
       IN IF (~sg /\ acc # <<>>) \/ (nl /\ acc = <<>>) \/ (K(t, j) = "+" /\ acc = <<>>) \/ ~r.ok THEN [ ok |-> FALSE, ts |-> <<>> ]
          ELSE LinesR(m, t, r.p, jux, Append(acc, [ v |-> LScale(m, IF K(t, j) = "-" THEN 0 - 1 ELSE 1, r.v), nl |-> nl ]))
Read(m, t, jux) == IF t = <<>> THEN [ ok |-> FALSE, ts |-> <<>> ] ELSE TLCEval(LinesR(m, t, 1, jux, <<>>))
Total(m, r) == FoldLeft(LAMBDA s, x : LAdd(m, s, x.v), [ k \in {} |-> 0 ], r.ts)

(* the multivector a map from keys denotes (no derivatives in it), or one component of an operator *)
Part(m, A, v, d, ord) ==
  LET lo == TLCEval([ k \in 1..Pow2[A.n] |-> Coef(v, <<k-1, 0, d, ord>>) ])
      hi == TLCEval([ k \in 1..Pow2[A.n] |-> Coef(v, <<k-1, 1, d, ord>>) ])
  IN IF IsZero(hi) THEN lo ELSE Add(m, lo, FromBase(A, hi))
NoD(v) == \A k \in DOMAIN v : k[3] = 0

MaskOf(x) == IF DOMAIN x.v = {} THEN 0 - 1 ELSE (CHOOSE k \in DOMAIN x.v : TRUE)[1]
Before(M, N) == Gr(M) < Gr(N) \/ (Gr(M) = Gr(N) /\ LexLess(M, N))
(* the order and the lines of a printed multivector: scalar terms, then every blade once, in canonical order; *)
(* nothing that is zero, unless it is all there is; lines as the format says                                 *)
Shown(r, fmt) ==
  /\ r.ok
  /\ \A i \in 1..Len(r.ts) :
       LET x == r.ts[i] IN
         /\ (DOMAIN x.v = {} => Len(r.ts) = 1)
         /\ Cardinality(DOMAIN x.v) <= 1
         /\ i > 1 => LET M == MaskOf(r.ts[i-1]) N == MaskOf(x) IN
                       /\ (M = 0 /\ N = 0) \/ Before(M, N)
                       /\ x.nl = CASE fmt = 1 -> FALSE [] fmt = 2 -> Gr(M) # Gr(N) [] fmt = 3 -> N # 0
=============================================================================
