------------------------------- MODULE Factory -------------------------------
(***************************************************************************)
(* What an algebra factory is asked for and what it must build.  Texts are *)
(* sequences of one-character strings.  Metric texts: rows separated by    *)
(* commas, entries by blanks, an entry is # or a rational number; one row   *)
(* stands for a diagonal.  Basis texts: the documented forms.                *)
(***************************************************************************)
EXTENDS Geometry

DIG == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
DigVal(c) == (CHOOSE i \in 1..10 : DIG[i] = c) - 1
IsDig(c) == \E i \in 1..10 : DIG[i] = c
Str(s) == FoldLeft(LAMBDA acc, c : acc \o c, "", s)
RECURSIVE NumStr(_)
NumStr(k) == IF k < 10 THEN DIG[k+1] ELSE NumStr(k \div 10) \o DIG[(k % 10) + 1]

RECURSIVE Split(_, _)
Split(s, c) ==
  LET P == { i \in 1..Len(s) : s[i] = c } IN
    IF P = {} THEN << s >>
    ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j
         IN << SubSeq(s, 1, i-1) >> \o Split(SubSeq(s, i+1, Len(s)), c)
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF Head(s) = " " THEN Trim(Tail(s))
           ELSE IF s[Len(s)] = " " THEN Trim(SubSeq(s, 1, Len(s)-1)) ELSE s

Nat_(m, s) == FoldLeft(LAMBDA acc, c : Md(m, 10 * acc + DigVal(c)), 0, s)
(* [-]digits[/digits] or [-]digits.digits *)
Rat(m, s) ==
  LET neg == s # <<>> /\ Head(s) = "-"
      t == IF neg THEN Tail(s) ELSE s
      fr == Split(t, "/")
      de == Split(t, ".")
      v == IF Len(fr) = 2 THEN Md(m, Nat_(m, fr[1]) * InvMod(m, Nat_(m, fr[2])))
           ELSE IF Len(de) = 2 THEN Md(m, Nat_(m, de[1] \o de[2]) * InvMod(m, Md(m, FoldLeft(LAMBDA acc, c : Md(m, 10 * acc), 1, de[2]))))
           ELSE Nat_(m, t)
  IN IF neg THEN Md(m, 0 - v) ELSE v
(* D[i][j] (i <= j) is the symbol for the product of basis vectors i and j *)
Entry(m, D, s, i, j) == IF s = << "#" >> THEN (IF i <= j THEN D[i][j] ELSE D[j][i]) ELSE Rat(m, s)
MetricOf(m, n, D, s) ==
  LET rows == Split(s, ",") IN
    IF s = << "?" >> THEN TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> Entry(m, D, << "#" >>, i, j) ]) ])   \* no metric given
    ELSE IF Len(rows) = 1
    THEN LET e == Split(s, " ") IN
           TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> IF i = j THEN Entry(m, D, e[i], i, i) ELSE 0 ]) ])
    ELSE TLCEval([ i \in 1..n |-> LET e == Split(Trim(rows[i]), " ") IN
           TLCEval([ j \in 1..n |-> Entry(m, D, e[j], i, j) ]) ])

(* names of the basis vectors; ix are the index texts when they are given apart (coordinates) *)
First(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN (CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i-1) : s[j] # c) ELSE 0
Sup(s) == LET i == First(s, "_") IN IF i = 0 THEN s ELSE SubSeq(s, 1, i) \o << "_" >> \o SubSeq(s, i+1, Len(s))
Listed(s) == LET parts == IF \E i \in 1..Len(s) : s[i] = "," THEN Split(s, ",") ELSE Split(s, " ")
             IN IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts)-1) ELSE parts
Names(s, ix, sub) ==
  LET us == IF sub THEN << "_" >> ELSE << "_", "_" >> IN
  IF \E i \in 1..Len(s) : s[i] = "*"
  THEN LET p == Split(s, "*") IN
         IF \E i \in 1..Len(s) : s[i] = "|"
         THEN LET q == Split(p[2], "|") IN [ i \in 1..Len(q) |-> Str(p[1] \o us \o q[i]) ]
         ELSE [ i \in 1..Nat_(1000, p[2]) |-> Str(p[1] \o us) \o NumStr(i-1) ]
  ELSE IF (\E i \in 1..Len(s) : s[i] \in { ",", " " })
       THEN [ i \in 1..Len(Listed(s)) |-> Str(IF sub THEN Listed(s)[i] ELSE Sup(Listed(s)[i])) ]
       ELSE [ i \in 1..Len(ix) |-> Str(s \o us \o ix[i]) ]
(* a reciprocal name never coincides with the name of a basis vector *)
RNames(s, ix) == LET b == Names(s, ix, TRUE)  r == Names(s, ix, FALSE) IN
                   [ i \in 1..Len(r) |-> IF \E j \in 1..Len(b) : b[j] = r[i] THEN r[i] \o "__" ELSE r[i] ]

(* blades in canonical order: by grade, then lexicographically in their indices *)
IxSeq(M) == SetToSortSeq(Bits(M), <)
RECURSIVE IxLess(_, _)
IxLess(a, b) == IF a = <<>> \/ b = <<>> THEN Len(a) < Len(b)
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE IxLess(Tail(a), Tail(b))
Order(n) == SetToSortSeq(0..(Pow2[n]-1), LAMBDA x, y : LET a == IxSeq(x)  b == IxSeq(y) IN
                Len(a) < Len(b) \/ (Len(a) = Len(b) /\ a # b /\ IxLess(a, b)))
Join(names, q, sep) == FoldLeft(LAMBDA acc, k : IF acc = "" THEN names[q[k]] ELSE acc \o sep \o names[q[k]], "", [ k \in 1..Len(q) |-> k ])

(* the algebra of p squares +1, q squares -1, r squares 0, and the mode of the dual it leaves behind *)
ClG(m, p, q, r) == LET n == p + q + r IN
  TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> IF i # j THEN 0 ELSE IF i <= p THEN 1 ELSE IF i <= p + q THEN m - 1 ELSE 0 ]) ])
ClNames(p, q, r, conv, root) == [ i \in 1..(p+q+r) |-> root \o "_" \o NumStr(IF conv = "kingdon" THEN i - 1 ELSE i) ]
ClMode(conv) == IF conv = "kingdon" THEN "Iinv+" ELSE "I+"
=============================================================================
