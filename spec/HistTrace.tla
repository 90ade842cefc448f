------------------------------ MODULE HistTrace ------------------------------
(* Recorded histories: every answer is the reference answer for the query, the algebra and the modes (recorded in a fresh *)
(* copy of the same process); the operands never change.                                                                 *)
EXTENDS History, TLC, Json, IOUtils
TR == JsonDeserialize(IOEnv.TRACE)
REF == TR.algs[1].ref        \* reference answers: [q |-> [ per algebra |-> [key |-> answer] ]]
OPND == TR.algs[1].operands
VARIABLES vSess, vLine, vDual, vDot, vStat
vars == <<vSess, vLine, vDual, vDot, vStat>>
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
Init == vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vDual = "I+" /\ vDot = <<"|", "|", "|", "|">> /\ vStat = "run"
Key == << IF LN.m \in DualDep THEN vDual ELSE "", IF LN.m \in DotDep THEN vDot[LN.alg] ELSE "" >>
Want == CASE LN.op = "ask" -> { r[3] : r \in { REF[LN.q][LN.alg][i] : i \in { j \in 1..Len(REF[LN.q][LN.alg]) :
                                     << REF[LN.q][LN.alg][j][1], REF[LN.q][LN.alg][j][2] >> = Key } } }
          [] LN.op = "operands" -> OPND
          [] OTHER -> <<>>
Good(w) == CASE LN.st = "skip" -> TRUE
             [] LN.st # "ok" -> FALSE
             [] LN.op = "ask" -> LN.obs \in { <<x>> : x \in w }
             [] LN.op = "operands" -> LN.obs = w
             [] OTHER -> TRUE
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w ]))
Step == /\ vStat = "run" /\ vLine <= Len(Lines)
        /\ LET w == TLCEval(Want) IN
           IF Good(w) THEN /\ vLine' = vLine + 1
                           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
                           /\ vDual' = IF LN.op = "dualmode" THEN LN.s ELSE vDual
                           /\ vDot' = IF LN.op = "dotmode" THEN [ vDot EXCEPT ![LN.alg] = LN.s ] ELSE vDot
                           /\ (vLine = Len(Lines) => Say("DONE", <<>>))
           ELSE vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vDual, vDot>>
        /\ UNCHANGED vSess
Spec == Init /\ [][Step]_vars
TypeOK == vStat \in { "run", "done", "bad" } /\ vDual \in DualModes
=============================================================================
