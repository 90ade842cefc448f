---------------------------- MODULE MC_Printing ----------------------------
(* Laws of the reader: whatever a writer prints by the rules, with any parentheses it likes, is read as the value  *)
(* it was given; a sign, a term, a blade or a line out of place is noticed.  The expressions are built step by     *)
(* step.  Apart from that, every assignment of kinds of coefficients to blades is enumerated for the code to print. *)
EXTENDS Printing, Json
CONSTANTS M, Depth, Masks, Classes, Gen
VARIABLES vE, vV, vN, vSh
vars == <<vE, vV, vN, vSh>>
(* an expression with its value and the tightness of its top: 1 sum, 2 product or quotient, 3 power or atom, 0 sum with a sign in front *)
Leaves == { [ t |-> << <<"num", 3, 3>> >>, v |-> Sc(M, 3), w |-> 3 ],
            [ t |-> << <<"atom", 5, 0>> >>, v |-> Sc(M, 5), w |-> 3 ],
            [ t |-> << <<"vec", 1, 0>> >>, v |-> One(<<1, 0, 0, 0>>), w |-> 3 ],
            [ t |-> << <<"vec", 1, 0>>, <<"^", 0, 0>>, <<"vec", 2, 0>> >>, v |-> One(<<3, 0, 0, 0>>), w |-> 3 ],
            [ t |-> << <<"D", 1, 0>> >>, v |-> One(<<0, 0, 1, 0>>), w |-> 3 ] }
Par(e, br) == [ t |-> << <<br, 0, 0>> >> \o e.t \o << <<Close(br), 0, 0>> >>, v |-> e.v, w |-> 3 ]
Need(e, w) == IF e.w >= w THEN e ELSE Par(e, "(")
Op2(o, x, y, w, v) == [ t |-> x.t \o << <<o, 0, 0>> >> \o y.t, v |-> v, w |-> w ]
Combos(x, y) ==
  { Op2("+", Need(x, 0), Need(y, 2), IF x.w = 0 THEN 0 ELSE 1, LAdd(M, x.v, y.v)),
    Op2("-", Need(x, 0), Need(y, 2), IF x.w = 0 THEN 0 ELSE 1, LAdd(M, x.v, LScale(M, 0 - 1, y.v))) }
  \cup (IF Sane(LMul(M, x.v, y.v)) THEN { Op2("*", Need(x, 2), Need(y, 3), 2, LMul(M, x.v, y.v)) } ELSE {})
  \cup (IF IsSc(y.v) /\ ScOf(y.v) # 0
        THEN { Op2("/", Need(x, 2), Need(y, 3), 2, LScale(M, InvMod(M, ScOf(y.v)), x.v)),
               [ t |-> << <<"frac", 0, 0>>, <<"{", 0, 0>> >> \o x.t \o << <<"}", 0, 0>>, <<"{", 0, 0>> >> \o y.t \o << <<"}", 0, 0>> >>,
                 v |-> LScale(M, InvMod(M, ScOf(y.v)), x.v), w |-> 3 ] } ELSE {})
Unary(x) ==
  { Par(x, "("), Par(x, "{"), [ t |-> << <<"-", 0, 0>> >> \o Need(x, 2).t, v |-> LScale(M, 0 - 1, x.v), w |-> 0 ] }
  \cup (IF IsSc(x.v) THEN { [ t |-> (IF Len(x.t) = 1 THEN x ELSE Par(x, "(")).t \o << <<"**", 0, 0>>, <<"num", 2, 2>> >>,
                             v |-> Sc(M, ScOf(x.v) * ScOf(x.v)), w |-> 2 ] } ELSE {})
Shapes == [Masks -> Classes \cup {"no"}]
Modes == { "str", "latex", "str/fmt2", "str/fmt3", "latex/fmt2", "latex/fmt3" }
Init == \/ /\ vE \in { e : e \in Leaves } /\ vV = 0 /\ vN = 1 /\ vSh = <<>>
        \/ /\ Gen /\ vE = [ t |-> <<>>, v |-> <<>>, w |-> 0 ] /\ vV = 1 /\ vN = Depth
           /\ \E s \in Shapes, m \in Modes, rp \in {"", "base"} : vSh = <<s, m, rp>>
Next == /\ vN < Depth /\ vN' = vN + 1 /\ UNCHANGED <<vV, vSh>>
        /\ \/ \E y \in Leaves : vE' \in Combos(vE, y) \cup Combos(y, vE)
           \/ vE' \in Unary(vE)
Spec == Init /\ [][Next]_vars
(* products of sums print their factors in parentheses; a power binds tighter than a product *)
RoundTrip == (vV = 0) => LET r == Sum(M, vE.t, 1, FALSE) IN r.ok /\ r.p = Len(vE.t) + 1 /\ r.v = vE.v
TopLevel == (vV = 0) => LET r == Read(M, vE.t, FALSE) IN r.ok /\ Total(M, r) = vE.v
Juxtaposed == (vV = 0) => LET t == SelectSeq(vE.t, LAMBDA x : x[1] # "*") IN
                             (\A i \in 1..Len(vE.t) : vE.t[i][1] # "/") =>
                               LET r == Sum(M, t, 1, TRUE) IN r.ok /\ r.v = vE.v
Cut == (vV = 0 /\ Len(vE.t) > 1) => LET r == Read(M, vE.t \o << <<"+", 0, 0>> >>, FALSE) IN ~r.ok
Emit == (vV = 1) => PrintT(ToJson([ tag |-> "SHAPE", masks |-> SetToSortSeq({ k \in Masks : vSh[1][k] # "no" }, <),
             cls |-> LET q == SetToSortSeq({ k \in Masks : vSh[1][k] # "no" }, <) IN [ i \in 1..Len(q) |-> vSh[1][q[i]] ],
             mode |-> vSh[2], rep |-> vSh[3] ]))
=============================================================================
