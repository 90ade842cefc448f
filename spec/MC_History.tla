----------------------------- MODULE MC_History -----------------------------
(* The machine with tables gives the answers of the machine without, whatever was asked before; a table is keyed by the  *)
(* algebra it belongs to.  Every history is printed for replay: the queries before it put the tables in their state.     *)
EXTENDS History, TLC, Json
CONSTANTS NAlg, Depth, Keyed          \* Keyed: "algebra", or "names" (a wrong design: the law fails)
VARIABLES vTab, vDual, vDot, vHist, vLast
vars == <<vTab, vDual, vDot, vHist, vLast>>
Names(a) == IF Keyed = "algebra" THEN a ELSE 1               \* all algebras here have the same names
Init == /\ vTab = [ k \in Tables \X (1..NAlg) |-> <<>> ] /\ vDual = "I+" /\ vDot = [ a \in 1..NAlg |-> "|" ]
        /\ vHist = <<>> /\ vLast = <<"", 1, <<>>, <<>>>>
(* filling a table: the entry is computed from the algebra when it is missing, and used when it is there *)
Ask(t, a) ==
  LET k == <<t, Names(a)>>  e == IF vTab[k] = <<>> THEN Answer(Fills(t), a, vDual, vDot[a]) ELSE vTab[k] IN
  /\ vTab' = [ vTab EXCEPT ![k] = e ]
  /\ vHist' = Append(vHist, <<Fills(t), a>>) /\ vLast' = <<Fills(t), a, e, Answer(Fills(t), a, vDual, vDot[a])>>
  /\ UNCHANGED <<vDual, vDot>>
SetDual(m) == vDual' = m /\ m # vDual /\ vHist' = Append(vHist, <<"dualmode", 0>>) /\ UNCHANGED <<vTab, vDot, vLast>>
SetDot(a, m) == vDot' = [ vDot EXCEPT ![a] = m ] /\ m # vDot[a] /\ vHist' = Append(vHist, <<"dotmode", a>>) /\ UNCHANGED <<vTab, vDual, vLast>>
Next == /\ Len(vHist) < Depth
        /\ \/ \E t \in Tables, a \in 1..NAlg : Ask(t, a)
           \/ \E m \in {"Iinv-"} : SetDual(m)
           \/ \E m \in {"<"} : SetDot(1, m)
Spec == Init /\ [][Next]_vars
Transparent == vLast[3] = vLast[4]
Emit == PrintT(ToJson([ tag |-> "HIST", h |-> vHist ]))
=============================================================================
