------------------------------ MODULE MixTrace ------------------------------
(* Recorded combinations of objects of several live algebras, checked against Mixing. *)
EXTENDS Mixing, TLC, Json, IOUtils
TR == JsonDeserialize(IOEnv.TRACE)
VARIABLES vSess, vLine, vPool, vStat
vars == <<vSess, vLine, vPool, vStat>>
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vPool = << >>
X == vPool[LN.a]
Y == vPool[LN.b]
(* "make": an object of an algebra comes into the pool; "comb": combination of pool objects a and b; "eq" *)
Good == CASE LN.st = "skip" -> TRUE
          [] LN.op = "make" -> LN.st = "ok" /\ LN.obs = <<LN.al>>
          [] LN.op = "algeq" -> LN.st = "ok" /\ LN.obs = <<IF LN.a = LN.b THEN 1 ELSE 0>>      \* identity of algebras
          [] OTHER -> /\ MustRaise(X, Y) => LN.st = "exc"
                      /\ LN.st \in { "ok", "exc" }
                      /\ LN.st = "ok" => Fits(X, Y, LN.obs[1])
NewObj == CASE LN.op = "make" -> <<[ kind |-> LN.s, alg |-> LN.al ]>>
            [] LN.op = "algeq" -> <<>>
            [] LN.st = "ok" /\ LN.dst = 1 -> <<[ kind |-> LN.s, alg |-> X.alg ]>>
            [] OTHER -> <<>>
Say(tag) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op,
                            want |-> IF tag = "DIVERGE" /\ LN.op \notin {"make", "algeq"} THEN <<X, Y>> ELSE <<>> ]))
Step == /\ vStat = "run" /\ vLine <= Len(Lines)
        /\ IF Good THEN /\ vLine' = vLine + 1 /\ vPool' = vPool \o NewObj
                        /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
                        /\ (vLine = Len(Lines) => Say("DONE"))
           ELSE vStat' = "bad" /\ Say("DIVERGE") /\ UNCHANGED <<vLine, vPool>>
        /\ UNCHANGED vSess
Spec == Init /\ [][Step]_vars
TypeOK == vStat \in { "run", "done", "bad" }
=============================================================================
