------------------------------ MODULE MC_Prec ------------------------------
(* All expressions up to MaxLen tokens, built token by token, for every order of the products.  On each complete *)
(* expression the machine agrees with the definition; with Gen = TRUE it is printed for replay on the code.     *)
EXTENDS Prec, Json
CONSTANTS MaxLen, Gen, Ops
VARIABLES vOrd, vToks, vSt
vars == <<vOrd, vToks, vSt>>
Orders == { o \in [1..3 -> 1..3] : \A i, j \in 1..3 : o[i] = o[j] => i = j }
Toks == {"a", "(", ")"} \cup Ops
Opens(st) == Len(SelectSeq(st.stk, LAMBDA e : e[2] = 0))
Init == vOrd \in Orders /\ vToks = <<>> /\ vSt = Start
Next == /\ Len(vToks) < MaxLen
        /\ \E t \in Toks :
             LET n == Step1(vSt, t, vOrd, {}, {}) IN
               /\ n.ok
               /\ Len(vToks) + 1 + Opens(n) + (IF n.opd THEN 0 ELSE 1) <= MaxLen
               /\ ~(t = ")" /\ Len(vToks) > 1 /\ vToks[Len(vToks)-1] = "(")           \* no (a)
               /\ ~(t = "-" /\ ~vSt.opd /\ vToks # <<>> /\ vToks[Len(vToks)] = "-")
               /\ vToks' = Append(vToks, t) /\ vSt' = n
        /\ UNCHANGED vOrd
Spec == Init /\ [][Next]_vars
Complete == vSt.opd /\ Opens(vSt) = 0
P == Finish(vSt).out
Agree == Complete => (Finish(vSt).ok /\ P = Post(vToks, vOrd))
Frontier == Complete => /\ Len(SelectSeq(P, LAMBDA t : t = "a")) = Len(SelectSeq(vToks, LAMBDA t : t = "a"))
                        /\ \A o \in Prods : Len(SelectSeq(P, LAMBDA t : t = o)) = Len(SelectSeq(vToks, LAMBDA t : t = o))
(* parentheses around everything change nothing; a fully parenthesised expression means the same in every order *)
Paren == Complete => Run(<<"(">> \o vToks \o <<")">>, vOrd, {}, {}).out = P
Stable == Complete => \A o \in Orders : Run(Render(P), o, {}, {}).out = P
Emit == (Complete /\ Gen /\ Len(vToks) >= MaxLen - 2) => PrintT(ToJson([ tag |-> "EXPR", ord |-> vOrd, toks |-> vToks, post |-> P ]))
=============================================================================
