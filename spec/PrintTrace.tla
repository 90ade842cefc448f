----------------------------- MODULE PrintTrace -----------------------------
(* Conformance of printed text and LaTeX.  The state: registers with the values the specification gave them, and   *)
(* everything printed so far.  What is printed must denote the value in the register, in canonical form, and must  *)
(* be what was printed for it the same way before.                                                                 *)
EXTENDS Printing, Json, IOUtils
TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |-> MkAlg(TR.m, TR.algs[a].n, TR.algs[a].g) ]))
NREG == 12
VARIABLES vSess, vLine, vReg, vSeen, vStat
vars == <<vSess, vLine, vReg, vSeen, vStat>>
Empty == [ t |-> "none", v |-> <<>>, cmp |-> FALSE, k |-> 0 ]
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vReg = [ r \in 1..NREG |-> Empty ] /\ vSeen = {}
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CA == TLCGet(7)[LN.al]
CN == CA.n
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))
RA == vReg[LN.a]
VA == RA.v
VB == vReg[LN.b].v
Mv(x) == [ Empty EXCEPT !.t = "mv", !.v = x ]
Reg(x) == [ t |-> "reg", r |-> x, ok |-> TRUE ]
Chk(b) == [ t |-> "chk", r |-> Empty, ok |-> b ]
Rd == Read(MOD, LN.toks, LN.jux = 1)
Again == \A e \in vSeen : (e[1] = LN.a /\ e[2] = LN.mode) => e[3] = LN.toks

MvShown(r, fmt, x) == Shown(r, fmt) /\ LET v == Total(MOD, r) IN NoD(v) /\ Part(MOD, CA, v, 0, 0) = x

(* operators: a component for every derivative (D{} is the scalar component); the blades stand on the side the flag says *)
Masks(x) == { k[1] : k \in DOMAIN x.v }
OpShown(r) ==
  /\ r.ok
  /\ \A i \in 1..Len(r.ts) :
       LET x == r.ts[i] IN
         /\ ~x.nl /\ Cardinality(Masks(x)) <= 1 /\ (DOMAIN x.v = {} => Len(r.ts) = 1)
         /\ i > 1 => LET M == MaskOf(r.ts[i-1]) N == MaskOf(x) IN (M = 0 /\ N = 0) \/ Before(M, N)
OpIs(v, o) ==
  /\ Part(MOD, CA, v, 0, 0) = o.v[1]
  /\ \A d \in 1..(Len(o.v) - 1) :
        Add(MOD, Part(MOD, CA, v, d, 0), Part(MOD, CA, v, d, IF o.cmp THEN 2 ELSE 1)) = o.v[d+1]
  /\ \A k \in DOMAIN v : k[3] < Len(o.v) /\ (k[1] # 0 /\ k[3] # 0 => k[4] = (IF o.cmp THEN 2 ELSE 1))

Cat(ts) == LET F(s, e) == Append(s, Read(MOD, e[2], LN.jux = 1)) IN FoldLeft(F, <<>>, ts)
LtShown == /\ Len(LN.lns) = CN
           /\ \A i \in 1..CN : LN.lns[i][1] = Pow2[i-1]
           /\ LET rs == Cat(LN.lns) IN \A i \in 1..CN : MvShown(rs[i], 1, VA[i])

(* the value of a tensor on the symbolic vectors of its slots *)
Ix(i, k, n) == [ s \in 1..k |-> ((i \div n^(k - s)) % n) + 1 ]
SlotVal == SumSeq(MOD, [ i \in 1..Len(VA) |->
              LET ix == Ix(i - 1, RA.k, CN)
                  P(j) == FoldLeft(LAMBDA c, s : Md(MOD, c * LN.slots[s][ix[s]]), VA[i], [ s \in 1..j |-> s ])
              IN P(RA.k) ])
MltShown == LET r == Rd IN
              /\ r.ok
              /\ LET v == Total(MOD, r) IN IsSc(v) /\ ScOf(v) = SlotVal
              /\ \A i \in 1..Len(r.ts) : DOMAIN r.ts[i].v = {} => Len(r.ts) = 1

Want ==
  CASE LN.op = "new" -> Reg(Mv(LN.df))
    [] LN.op = "obs" -> Reg(IF RA.t = "mv" THEN RA ELSE Empty)
    [] LN.op = "calc" -> Reg(Mv(CASE LN.s = "+" -> Add(MOD, VA, VB) [] LN.s = "-" -> Sub(MOD, VA, VB)
                                  [] LN.s = "*" -> Mul(CA, VA, VB) [] LN.s = "^" -> Wedge(MOD, VA, VB)))
    [] LN.op = "newop" -> Reg([ Empty EXCEPT !.t = "op", !.cmp = (LN.c = 1), !.v =
                             [ d \in 1..LN.k |-> FoldLeft(LAMBDA s, e : IF e.d = d - 1 THEN Add(MOD, s, e.v) ELSE s, Zero(CN), LN.terms) ] ])
    [] LN.op = "newlt" -> Reg([ Empty EXCEPT !.t = "lt", !.v = LN.rows ])
    [] LN.op = "newmlt" -> Reg([ Empty EXCEPT !.t = "mlt", !.v = LN.df, !.k = LN.k ])
    [] LN.st # "ok" -> Chk(FALSE)
    [] LN.op = "print" -> Chk(Again /\ MvShown(Rd, LN.k, VA))
    [] LN.op = "printop" -> Chk(Again /\ LET r == Rd IN OpShown(r) /\ OpIs(Total(MOD, r), RA))
    [] LN.op = "printlt" -> Chk(LtShown)
    [] LN.op = "printmlt" -> Chk(Again /\ MltShown)
    [] LN.op = "same" -> Chk(LN.obs = <<1>>)
Good(w) == CASE LN.st = "skip" -> TRUE
             [] LN.st # "ok" -> FALSE
             [] w.t = "chk" -> w.ok
             [] w.t = "reg" -> (w.r.t = "mv" => OBS = w.r.v)
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vReg' = IF LN.dst > 0 THEN [ vReg EXCEPT ![LN.dst] = w.r ] ELSE vReg
           /\ vSeen' = IF LN.mode # "" THEN vSeen \cup {<<LN.a, LN.mode, LN.toks>>} ELSE vSeen
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", <<>>))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", IF w.t = "reg" THEN w.r.v ELSE VA) /\ UNCHANGED <<vLine, vReg, vSeen>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
