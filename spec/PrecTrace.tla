----------------------------- MODULE PrecTrace -----------------------------
(* Conformance of GAeval / def_prec.  The state is the order in force and the dictionary of names; *)
(* expressions are evaluated with operands that record how they are combined, or with multivectors.*)
EXTENDS Geometry, Json, IOUtils
PR == INSTANCE Prec
TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |-> MkAlg(TR.m, TR.algs[a].n, TR.algs[a].g) ]))
VARIABLES vSess, vLine, vOrd, vDict, vEnv, vStat
vars == <<vSess, vLine, vOrd, vDict, vEnv, vStat>>
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run" /\ vOrd = <<1, 2, 3>> /\ vDict = 0
        /\ vEnv = [ r \in {} |-> <<>> ]
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CA == TLCGet(7)[LN.al]
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))
Res(t, v) == [ t |-> t, v |-> v ]
Names == ToSet(LN.names)
Calls == ToSet(LN.calls)
Meths == ToSet(LN.meths)
R == PR!Run(LN.toks, vOrd, Calls, Meths)
Named == [ i \in 1..Len(R.out) |-> IF R.out[i] \in Names THEN R.out[i] \o "@" \o ToString(vDict) ELSE R.out[i] ]
(* the value of a postfix form on multivectors *)
Num == [ x \in {"2", "3", "5"} |-> IF x = "2" THEN 2 ELSE IF x = "3" THEN 3 ELSE 5 ]
Bin(op, x, y) == CASE op = "*" -> Mul(CA, x, y) [] op = "^" -> Wedge(MOD, x, y) [] op = "|" -> HDot(CA, x, y)
                   [] op = "<" -> LC(CA, x, y) [] op = ">" -> RC(CA, x, y) [] op = "+" -> Add(MOD, x, y) [] op = "-" -> Sub(MOD, x, y)
Value ==
  LET F(s, t) == IF t \in PR!Binary THEN Append(SubSeq(s, 1, Len(s)-2), TLCEval(Bin(t, s[Len(s)-1], s[Len(s)])))
                 ELSE IF t = "neg" THEN [ s EXCEPT ![Len(s)] = Sub(MOD, Zero(CA.n), @) ]
                 ELSE IF t = ".rev" THEN [ s EXCEPT ![Len(s)] = Rev(MOD, @) ]
                 ELSE IF t \in DOMAIN Num THEN Append(s, Scal(CA.n, Num[t]))
                 ELSE Append(s, vEnv[t])
  IN FoldLeft(F, <<>>, R.out)[1]
Want ==
  CASE LN.op = "prec" -> IF LN.ord = <<>> THEN Res("exc", <<>>) ELSE Res("none", <<>>)
    [] LN.op = "eval" -> IF R.ok THEN Res("post", Named) ELSE Res("exc", <<>>)
    [] LN.op = "bad" -> Res("exc", <<>>)
    [] LN.op = "mv" -> Res("mv", LN.df)
    [] LN.op = "value" -> Res("mv", Value)
    [] LN.op = "obs" -> Res("mv", vEnv[LN.s])
Good(w) == CASE LN.st = "skip" -> TRUE
             [] w.t = "exc" -> LN.st = "exc"
             [] LN.st # "ok" -> FALSE
             [] w.t = "post" -> LN.post = w.v
             [] w.t = "mv" -> OBS = w.v
             [] OTHER -> TRUE
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w.v ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vOrd' = IF LN.op = "prec" /\ w.t = "none" THEN LN.ord ELSE vOrd
           /\ vDict' = IF LN.op = "prec" /\ w.t = "none" THEN LN.d ELSE vDict
           /\ vEnv' = IF LN.op = "mv" THEN (LN.s :> LN.df) @@ vEnv ELSE vEnv
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vOrd, vDict, vEnv>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
=============================================================================
