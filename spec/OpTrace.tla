------------------------------ MODULE OpTrace ------------------------------
(* Conformance of recorded sessions with differential operators (Pdop, Sdop, Dop) over algebras  *)
(* with constant metric.  Registers hold jets of fields and operators with jets as coefficients,  *)
(* computed by the specification; observed values are compared at the sample point.               *)
EXTENDS Jets, Json, IOUtils

TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |->
    LET L == TR.algs[a]  gi == MatInv(TR.m, L.g)  IN
    [ alg |-> MkAlg(TR.m, L.n, L.g), tab |-> MkTab(L.mi),
      w |-> TLCEval([ i \in 1..L.n |-> Vec(L.n, gi[i]) ]) ] ]))
ASSUME \A a \in 1..Len(TR.algs) : SortedByDegree(TLCGet(7)[a].tab)

VARIABLES vSess, vLine, vFld, vOpr, vStat
vars == <<vSess, vLine, vFld, vOpr, vStat>>
NREG == 24
NoOp == [ cmp |-> FALSE, t |-> <<>> ]
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vFld = [ r \in 1..NREG |-> <<>> ] /\ vOpr = [ r \in 1..NREG |-> NoOp ]

Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CH == TLCGet(7)[LN.al]
CA == CH.alg
T == CH.tab
CN == CA.n
FA == vFld[LN.a]
FB == vFld[LN.b]
OA == vOpr[LN.a]
OB == vOpr[LN.b]
Conv(lo, hi) == IF hi = <<>> THEN lo ELSE Add(MOD, lo, FromBase(CA, hi))
OBS == Conv(LN.obs, LN.obsb)
OBSO == TLCEval([ a \in 1..Len(LN.obs) |-> Conv(LN.obs[a], LN.obsb[a]) ])
FromTerms == FoldLeft(LAMBDA acc, t : OSet(MOD, T, acc, t.i, t.j), OZero(T, LN.k = 1), LN.df)

Fld(F) == [ t |-> "fld", f |-> F, o |-> NoOp, ok |-> TRUE, v |-> JVal(CA, F) ]
Opr(D) == [ t |-> "opr", f |-> <<>>, o |-> D, ok |-> TRUE, v |-> OVal(CA, T, D) ]
Bool(b) == [ t |-> "lst", f |-> <<>>, o |-> NoOp, ok |-> TRUE, v |-> IF b THEN <<1>> ELSE <<0>> ]
Chk(b) == [ t |-> "chk", f |-> <<>>, o |-> NoOp, ok |-> b, v |-> <<>> ]
Raise == [ t |-> "raise", f |-> <<>>, o |-> NoOp, ok |-> TRUE, v |-> <<>> ]

SumOps(ds) == FoldLeft(LAMBDA acc, d : OAdd(MOD, T, acc, d), OZero(T, OA.cmp), ds)
GradOp(cmp) == [ cmp |-> cmp, t |-> TLCEval([ a \in 1..T.J |->
     LET S == { i \in 1..CN : T.unit[i] = a } IN
       IF S = {} THEN <<>> ELSE TLCEval([ b \in 1..T.J |-> IF b = 1 THEN CH.w[CHOOSE i \in S : TRUE] ELSE Zero(CN) ]) ]) ]
OEqual(D, E) == D.cmp = E.cmp /\ OVal(CA, T, D) = OVal(CA, T, E)
OZeroHere(D) == \A a \in 1..T.J : IsZero(JVal(CA, D.t[a]))
ScalarOp(D) == \A a \in 1..T.J : IsScalar(JVal(CA, D.t[a]))

Want ==
  CASE LN.op = "newf" -> Fld(LN.df)
    [] LN.op = "newop" -> Opr(FromTerms)
    [] LN.op = "obs" -> IF OA = NoOp THEN Fld(FA) ELSE Opr(OA)
    [] LN.op = "gradop" -> Opr(GradOp(LN.k = 1))
    [] LN.op = "fadd" -> Fld(JAdd(MOD, FA, FB))
    [] LN.op = "fmul" -> Fld(JMul(CA, T, LN.s, FA, FB))
    [] LN.op = "apply" -> Fld(OApply(CA, T, LN.s, OA, FB))          \* either side: the operator's flag decides
    [] LN.op = "oprod" -> Opr(OProd(CA, T, LN.s, OA, OB))
    [] LN.op = "succ" -> Fld(IF OA.cmp THEN OApply(CA, T, LN.s, OB, OApply(CA, T, LN.s, OA, vFld[LN.k]))
                             ELSE OApply(CA, T, LN.s, OA, OApply(CA, T, LN.s, OB, vFld[LN.k])))
    [] LN.op = "oder" -> Opr(ODer(CA, T, LN.k, OA))
    [] LN.op = "oadd" -> Opr(OAdd(MOD, T, OA, OB))
    [] LN.op = "osub" -> Opr(OAdd(MOD, T, OA, OScale(MOD, T, MOD - 1, OB)))
    [] LN.op = "oneg" -> Opr(OScale(MOD, T, MOD - 1, OA))
    [] LN.op = "oscale" -> Opr(OScale(MOD, T, LN.c, OA))
    [] LN.op = "odiv" -> Opr(OScale(MOD, T, InvMod(MOD, LN.c), OA))
    [] LN.op = "oaddf" -> Opr(OAdd(MOD, T, OA, OMult(T, OA.cmp, FB)))
    [] LN.op = "osubf" -> Opr(OAdd(MOD, T, OA, OScale(MOD, T, MOD - 1, OMult(T, OA.cmp, FB))))
    [] LN.op = "ofsub" -> Opr(OAdd(MOD, T, OScale(MOD, T, MOD - 1, OA), OMult(T, OA.cmp, FB)))
    [] LN.op = "mvop" -> Opr(OMv(CA, T, LN.s, FA, OB))
    [] LN.op = "opmv" -> Opr(OMvR(CA, T, LN.s, OA, FB))
    [] LN.op = "same" -> Opr(OA)                                    \* simplify, consolidate, sums of components
    [] LN.op = "comps" -> Fld(OApply(CA, T, LN.s, OA, FB))          \* sum of the components applied
    [] LN.op = "ncomp" -> [ t |-> "lst", f |-> <<>>, o |-> NoOp, ok |-> TRUE,
                            v |-> << Cardinality({ k \in 1..Pow2[CN] : \E a \in 1..T.J : JVal(CA, OA.t[a])[k] # 0 }) >> ]
    [] LN.op = "oeq" -> IF LN.st # "ok" THEN Chk(FALSE)
                        ELSE IF LN.s = "must" THEN Bool(OEqual(OA, OB))
                        ELSE Chk(LN.obs = <<1>> => OEqual(OA, OB) \/ (OZeroHere(OA) /\ OZeroHere(OB)))
    [] LN.op = "oscal" -> Bool(ScalarOp(OA))
    [] LN.op = "raise" -> Raise
    [] LN.op = "noise" -> Chk(LN.st = "ok")
    [] OTHER -> Chk(FALSE)

Good(w) ==
  CASE LN.st = "skip" -> TRUE
    [] w.t = "raise" -> LN.st = "exc"
    [] LN.st # "ok" -> FALSE
    [] w.t = "fld" -> LN.kind = "fld" /\ OBS = w.v
    [] w.t = "opr" -> LN.kind = "opr" /\ OBSO = w.v /\ (LN.cmp = 2 \/ OZeroHere(w.o) \/ (LN.cmp = 1) = w.o.cmp)
    [] w.t = "chk" -> w.ok
    [] OTHER -> LN.obs = w.v
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w.v ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vFld' = IF LN.dst > 0 /\ w.t = "fld" THEN [ vFld EXCEPT ![LN.dst] = w.f ] ELSE vFld
           /\ vOpr' = IF LN.dst > 0 /\ w.t = "opr" THEN [ vOpr EXCEPT ![LN.dst] = w.o ] ELSE vOpr
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vFld, vOpr>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
