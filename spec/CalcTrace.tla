------------------------------ MODULE CalcTrace ------------------------------
(* Conformance of recorded sessions with multivector fields (derivatives, connection, vector     *)
(* derivative).  A register holds the value of a field at the sample point and the derivatives   *)
(* of its coefficients there.                                                                    *)
EXTENDS Submanifold, Json, IOUtils

TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
(* the chart of a submanifold is made from the ambient chart at the image point, through one or more maps *)
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |->
    LET R == TR.algs[a]
        C0 == MkChart(TR.m, R.n, R.g, R.dg, R.nu, R.normed = 1)
    IN FoldLeft(LAMBDA C, s : SubChart(TR.m, C, s.k, s.J, s.H, s.nu, s.normed = 1), C0, R.maps) ]))
Chart(a) == TLCGet(7)[a]

VARIABLES vSess, vLine, vReg, vStat
vars == <<vSess, vLine, vReg, vStat>>
NREG == 24
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vReg = [ r \in 1..NREG |-> [ v |-> <<>>, d |-> <<>> ] ]

Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CH == Chart(LN.al)
CA == CH.alg
CN == CA.n
RA == vReg[LN.a]
RB == vReg[LN.b]
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))

Val(v) == [ t |-> "val", v |-> v ]
Lst(v) == [ t |-> "lst", v |-> v ]
Flat(s) == FoldLeft(LAMBDA acc, e : acc \o e, <<>>, s)
Ix == [ i \in 1..CN |-> i ]

Want ==
  CASE LN.op = "new" -> Val(LN.df)
    [] LN.op = "obs" -> IF RA.v = <<>> THEN Lst(LN.obs) ELSE Val(RA.v)
    [] LN.op = "same" -> Val(RB.v)
    [] LN.op = "zero" -> Val(Zero(CN))
    [] LN.op = "add" -> Val(Add(MOD, RA.v, RB.v))
    [] LN.op = "sub" -> Val(Sub(MOD, RA.v, RB.v))
    [] LN.op = "prod" -> Val(ProdOf(CA, LN.s, RA.v, RB.v))
    [] LN.op = "diff" -> Val(CovD(CH, LN.k, RA.v, RA.d[LN.k]))
    [] LN.op = "tdiff" -> Val(CurveD(CH, RA.v, RA.d, RA.d[CN + 1], LN.u))
    [] LN.op = "grad" -> Val(GradL(CH, LN.s, RA.v, RA.d))
    [] LN.op = "rgrad" -> Val(GradR(CH, LN.s, RA.v, RA.d))
    \* the operator built from two constant multivectors A, B applied to F (register k): sums and multiples of grad
    [] LN.op = "bder" -> Val(BladeDeriv(CH, LN.k, LN.b))
    [] LN.op = "rvec" -> Lst(Flat([ i \in 1..CN |-> CH.w[i] ]))
    [] LN.op = "christ" -> Lst(LET G == IF LN.k = 1 THEN Christ1(MOD, CN, CH.dg) ELSE Christ2(MOD, CN, CH.g, CH.dg)
                               IN Flat([ i \in 1..CN |-> Flat(G[i]) ]))
    [] LN.op = "de" -> Lst(Flat([ i \in 1..CN |-> Flat(CH.conn[i]) ]))
    [] LN.op = "metric" -> Lst(Flat(CA.g))               \* of the frame
    [] LN.op = "graw" -> Lst(Flat(CH.g))                 \* of the coordinate vectors
    \* only that it is a field that can be used later (its value is checked where it is compared)
    [] LN.op = "free" -> Val(OBS)
    [] LN.op = "noise" -> Lst(<<>>)                      \* calls that must not change anything
    [] OTHER -> Lst(<<"?">>)

Good(w) == CASE LN.st = "skip" -> TRUE
             [] LN.st # "ok" -> FALSE
             [] w.t = "val" -> OBS = w.v
             [] OTHER -> LN.obs = w.v
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w.v ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vReg' = IF LN.dst > 0 /\ LN.st = "ok" THEN [ vReg EXCEPT ![LN.dst] = [ v |-> OBS, d |-> LN.obsd ] ] ELSE vReg
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vReg>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
