------------------------------ MODULE AlgTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded galgebra sessions with the algebra              *)
(* specification.  The state is that of a session: registers holding       *)
(* multivectors, and the (process wide)      *)
(* dual mode and the dot mode.  Each recorded call is one transition,      *)
(* evaluated by the specification from its own registers; what was         *)
(* observed on the real code must equal the specification's value.         *)
(* Verdicts are total: one DONE or DIVERGE line per session.               *)
(***************************************************************************)
EXTENDS Frames, Json, IOUtils

TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m

ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |-> MkAlg(TR.m, TR.algs[a].n, TR.algs[a].g) ]))
Alg(a) == TLCGet(7)[a]

VARIABLES vSess, vLine, vReg, vMode, vDot, vStat
vars == <<vSess, vLine, vReg, vMode, vDot, vStat>>

NREG == 24

Init == /\ vSess \in 1..Len(TR.sess)
        /\ vLine = 1
        /\ vReg = [ r \in 1..NREG |-> <<>> ]
        /\ vMode = "I+" /\ vDot = "|" 
        /\ vStat = "run"

Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CA == Alg(LN.al)
CN == CA.n
RA == vReg[LN.a]
RB == vReg[LN.b]
SC == Scal(CN, LN.c)
(* the observed multivector: coefficients of blades plus coefficients of ordered base products *)
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))

Val(v) == [ t |-> "val", v |-> v, r |-> v ]                \* the result must be this multivector
(* (the arguments mention the observation, which exists only when the call returned normally) *)
Chk(b, r) == IF LN.st = "ok" THEN [ t |-> "chk", ok |-> b, v |-> <<>>, r |-> r ]
             ELSE [ t |-> "chk", ok |-> FALSE, v |-> <<>>, r |-> <<>> ]
NoVal(b) == [ t |-> "nov", ok |-> b, v |-> <<>>, r |-> <<>> ]    \* no result: allowed exactly when b
         \* a relation the result must satisfy
Lst(s) == [ t |-> "lst", v |-> s, r |-> <<>> ]
Scalar1(v) == Lst(<<v>>)
Bool(b) == Lst(IF b THEN <<1>> ELSE <<0>>)
RaiseAny == [ t |-> "raise", v |-> <<>>, r |-> <<>> ]

DotSel(mode, X, Y) == CASE mode = "|" -> HDot(CA, X, Y) [] mode = "<" -> LC(CA, X, Y) [] mode = ">" -> RC(CA, X, Y)
InMasks(M) == \E j \in 1..Len(LN.df) : LN.df[j] = M

(* the hint claims a sign that the form does not have at this point: the result is not constrained *)
HintOff == LET q == QForm(CA, RA) IN (LN.s = "+" /\ q < 0) \/ (LN.s = "-" /\ q > 0)

Want ==
  CASE LN.op = "new" -> Val(LN.df)
    [] LN.op = "obs" -> IF RA = <<>> THEN NoVal(TRUE) ELSE Val(RA)
    [] LN.op = "ident" -> Val(RA)
    [] LN.op = "given" -> Val(LN.df)
    \* ---- linear structure
    [] LN.op = "neg" -> Val(Neg(MOD, RA))
    [] LN.op = "add" -> Val(Add(MOD, RA, RB))
    [] LN.op = "sub" -> Val(Sub(MOD, RA, RB))
    [] LN.op = "adds" -> Val(Add(MOD, RA, SC))
    [] LN.op = "subs" -> Val(Sub(MOD, RA, SC))
    [] LN.op = "rsubs" -> Val(Sub(MOD, SC, RA))
    [] LN.op = "smul" -> Val(Scale(MOD, LN.c, RA))
    [] LN.op = "sdiv" -> Val(Scale(MOD, InvMod(MOD, LN.c), RA))
    \* ---- products
    [] LN.op = "mul" -> Val(Mul(CA, RA, RB))
    [] LN.op = "com" -> Val(Comm(CA, RA, RB))
    [] LN.op = "acom" -> Val(ACom(CA, RA, RB))
    [] LN.op = "com_as" -> Val(Zero(CN))
    [] LN.op = "acom_as" -> Val(Scale(MOD, LN.c, RA))
    [] LN.op = "pow" -> Val(PowMv(CA, RA, LN.k))
    [] LN.op = "wedge" -> Val(Wedge(MOD, RA, RB))
    [] LN.op = "hdot" -> Val(HDot(CA, RA, RB))
    [] LN.op = "lc" -> Val(LC(CA, RA, RB))
    [] LN.op = "rc" -> Val(RC(CA, RA, RB))
    [] LN.op = "sprod" -> Val(ScalProd(CA, RA, RB))
    [] LN.op = "wedge_as" -> Val(Scale(MOD, LN.c, RA))
    [] LN.op = "hdot_as" -> Val(HDot(CA, RA, SC))
    [] LN.op = "lc_as" -> Val(LC(CA, RA, SC))
    [] LN.op = "rc_as" -> Val(RC(CA, RA, SC))
    [] LN.op = "lc_sa" -> Val(LC(CA, SC, RA))
    [] LN.op = "rc_sa" -> Val(RC(CA, SC, RA))
    [] LN.op = "sp" -> Scalar1(Mul(CA, RA, RB)[1])
    [] LN.op = "sprev" -> Scalar1(Mul(CA, Rev(MOD, RA), RB)[1])
    [] LN.op = "dotmode" -> Lst(<<>>)
    [] LN.op = "build" -> Lst(<<>>)                       \* another algebra comes into being: nothing changes
    [] LN.op = "gadot" -> Val(DotSel(vDot, RA, RB))
    \* ---- grades and involutions
    [] LN.op = "rev" -> Val(Rev(MOD, RA))
    [] LN.op = "ginvol" -> Val(GInvol(MOD, RA))
    [] LN.op = "ccon" -> Val(CConj(MOD, RA))
    [] LN.op = "even" -> Val(EvenPart(RA))
    [] LN.op = "odd" -> Val(OddPart(RA))
    [] LN.op = "grade" -> Val(GradePart(RA, LN.k))
    [] LN.op = "gradesum" -> Val(RA)
    [] LN.op = "scalar" -> Scalar1(RA[1])
    [] LN.op = "noscalar" -> Val(Sub(MOD, RA, GradePart(RA, 0)))
    [] LN.op = "grades" -> Lst(IF IsZero(RA) THEN <<0>> ELSE SetToSortSeq(GradesOf(RA), <))
    \* ---- coefficients
    [] LN.op = "fromlist" -> Val(FromCanon(CN, LN.df, LN.k))
    [] LN.op = "named" -> Val(LN.df)
    [] LN.op = "toomany" -> RaiseAny
    [] LN.op = "canon" -> Lst(CanonList(CN, RA))
    [] LN.op = "canongrade" -> Lst(CanonGrade(CN, RA, LN.k))
    [] LN.op = "coefsof" -> Lst([ k \in 1..Len(LN.df) |-> RA[LN.df[k]+1] ])
    [] LN.op = "listvec" -> Lst([ k \in 1..CN |-> RA[Pow2[k-1]+1] ])
    [] LN.op = "components" -> Val(RA)
    [] LN.op = "complist" -> Lst(FoldLeft(LAMBDA acc, M : IF RA[M+1] = 0 THEN acc ELSE acc \o <<M, RA[M+1]>>,
                                          <<>>, BladeOrder(CN)))
    [] LN.op = "proj" -> Val([ k \in 1..Pow2[CN] |-> IF InMasks(k-1) THEN RA[k] ELSE 0 ])
    [] LN.op = "setcoef" -> Val([ RA EXCEPT ![LN.k + 1] = LN.c ])
    \* the operand is known by its coefficients with respect to ordered products: one of these is assigned
    [] LN.op = "setcoefb" -> Val(FromBase(CA, [ ToBase(CA, RA) EXCEPT ![LN.k + 1] = LN.c ]))
    \* ---- predicates
    [] LN.op = "iszero" -> Bool(IsZero(RA))
    [] LN.op = "isscalar" -> Bool(IsScalar(RA))
    [] LN.op = "isvector" -> Bool(GradesOf(RA) = {1})
    [] LN.op = "isblade" -> Bool(IsBladeS(MOD, CN, RA))
    [] LN.op = "isversor" -> Bool(IsVersorS(CA, RA))
    [] LN.op = "isbase" -> Bool(\E k \in 1..Len(RA) : RA = Blade(CN, k-1))
    [] LN.op = "puregrade" -> Lst(<<PureGrade(RA)>>)
    [] LN.op = "eq" -> Bool(RA = RB)
    [] LN.op = "eqs" -> Bool(RA = SC)
    [] LN.op = "ratio" -> Scalar1(Ratio(MOD, RA, RB))
    [] LN.op = "hasheq" -> Chk(RA = RB => LN.obs = <<1>>, <<>>)
    \* ---- pseudoscalar and duality
    [] LN.op = "E" -> Val(PSeudo(CN))
    [] LN.op = "esq" -> Scalar1(Mul(CA, PSeudo(CN), PSeudo(CN))[1])
    [] LN.op = "I" -> Chk(/\ OBS[Pow2[CN]] # 0 /\ OBS = Scale(MOD, OBS[Pow2[CN]], PSeudo(CN))
                         /\ Mul(CA, OBS, OBS) = Scal(CN, IF LN.k = 1 THEN 1 ELSE MOD - 1), OBS)  \* LN.k: sign of E^2
    [] LN.op = "Iinv" -> Chk(IsInv(CA, RB, OBS), OBS)           \* RB: the pseudoscalar I
    [] LN.op = "dualmode" -> IF LN.s \in DualModes THEN Lst(<<>>) ELSE RaiseAny
    [] LN.op = "dualdef" -> Lst(<<>>)
    \* the vector product: RC is the pseudoscalar
    [] LN.op = "cross" -> IF CN = 3 /\ GradesOf(RA) = {1} /\ GradesOf(RB) = {1}
                          THEN Val(Neg(MOD, Mul(CA, vReg[LN.k], Wedge(MOD, RA, RB)))) ELSE RaiseAny
    [] LN.op = "dual" -> Val(DualOf(CA, RB, vMode, RA))
    [] LN.op = "undual" -> Chk(DualOf(CA, RB, vMode, OBS) = RA, OBS)
    \* ---- frames: the observation is a sequence of multivectors
    [] LN.op = "mvr" -> Chk(RecipTo(CA, Basis(CN), LN.obs,
                          IF LN.s = "raw" /\ \E i, j \in 1..CN : i # j /\ ~IsZero(HDot(CA, Basis(CN)[i], Basis(CN)[j]))
                          THEN ESq(CA, Basis(CN)) ELSE 1), <<>>)
    [] LN.op = "rblades" -> Chk(BladesReciprocal(CA, LN.obs), <<>>)
    [] LN.op = "rframe" -> LET bs == [ k \in 1..Len(LN.df) |-> vReg[LN.df[k]] ]  c == ESq(CA, bs) IN
                           IF LN.s = "norm" /\ c = 0 THEN NoVal(TRUE)
                           ELSE Chk(RecipTo(CA, bs, SubSeq(LN.obs, 1, Len(bs)), IF LN.s = "norm" THEN 1 ELSE c)
                                    /\ (LN.s # "norm" => /\ Len(LN.obs) = Len(bs) + 1
                                                          /\ LN.obs[Len(bs)+1] = Scal(CN, c)), <<>>)
    [] LN.op = "gmat" -> Lst([ i \in 1..CN*CN |-> CA.g[((i-1) \div CN) + 1][((i-1) % CN) + 1] ])
    [] LN.op = "gadj" -> Lst(LET M == MatScale(MOD, Det(MOD, CA.g), MatInv(MOD, CA.g))
                             IN [ i \in 1..CN*CN |-> M[((i-1) \div CN) + 1][((i-1) % CN) + 1] ])
    [] LN.op = "ginvm" -> Lst(LET M == MatInv(MOD, CA.g)
                             IN [ i \in 1..CN*CN |-> M[((i-1) \div CN) + 1][((i-1) % CN) + 1] ])
    \* ---- inverses
    [] LN.op = "inv" -> IF LN.st = "ok" THEN Chk(IsInv(CA, RA, OBS), OBS) ELSE NoVal(~InvCovered(CA, RA))
    [] LN.op = "powneg" -> LET p == PowMv(CA, RA, LN.k) IN
                           IF LN.st = "ok" THEN Chk(IsInv(CA, p, OBS), OBS) ELSE NoVal(~InvCovered(CA, p))
    [] LN.op = "ginv" -> IF LN.st = "ok" THEN Chk(IsInv(CA, RA, OBS), OBS) ELSE NoVal(~Invertible(CA, RA))
    [] LN.op = "div" -> IF LN.st = "ok" THEN Chk(Mul(CA, OBS, RB) = RA /\ Invertible(CA, RB), OBS)
                        ELSE NoVal(~InvCovered(CA, RB))
    [] LN.op = "rdivs" -> IF LN.st = "ok" THEN Chk(Mul(CA, OBS, RA) = SC /\ Invertible(CA, RA), OBS)
                          ELSE NoVal(~InvCovered(CA, RA))
    \* ---- geometry
    [] LN.op = "qform" -> Scalar1(QForm(CA, RA))
    [] LN.op = "refl" -> IF NonNullBlade(CA, RB) THEN Val(ReflOf(CA, RA, RB)) ELSE RaiseAny
    [] LN.op = "projb" -> IF NonNullBlade(CA, RB) THEN Val(ProjOf(CA, RA, RB)) ELSE RaiseAny
    [] LN.op = "rot" -> \* RB = exp(B/2): the rotated x satisfies exp(B/2) y = x exp(B/2)
                        Chk(Mul(CA, RB, OBS) = Mul(CA, RA, RB), OBS)
    [] LN.op = "exp" -> \* E = exp(tB): df = E', df2 = E(0), RA = B
                        IF ~IsScalar(Mul(CA, RA, RA)) THEN RaiseAny
                        ELSE Chk(/\ LN.df = Mul(CA, RA, OBS) /\ LN.df = Mul(CA, OBS, RA)
                                 /\ LN.df2 = Scal(CN, 1), OBS)
    [] LN.op = "exph" -> Chk(OBS = LN.df, OBS)                  \* exp(B/2) is the function at t = 1/2
    [] LN.op = "expraise" -> RaiseAny
    \* ---- norms (m = 0: integers)
    [] LN.op = "norm2" -> IF HintOff THEN NoVal(TRUE) ELSE Scalar1(AbsI(QForm(CA, RA)))
    [] LN.op = "norm" -> IF HintOff THEN NoVal(TRUE) ELSE Lst(<<AbsI(QForm(CA, RA)), 1>>)
    [] LN.op = "mag2" -> Scalar1(Mag2(CA, RA))
    [] LN.op = "mag" -> Lst(<<Mag2(CA, RA), 1>>)
    [] LN.op = "qformz" -> Scalar1(QForm(CA, RA))
    [] LN.op = "raise" -> RaiseAny
    [] OTHER -> Chk(FALSE, <<>>)

TotalOps == { "inv", "ginv", "div", "rdivs", "powneg" }
Good(w) ==
  CASE LN.st = "skip" -> TRUE
    [] w.t = "raise" -> LN.st = "exc"
    [] w.t = "nov" -> LN.st \in { "ok", "exc", "nf" } /\ w.ok
    [] LN.op \in TotalOps -> (LN.st \in { "ok", "exc", "nf" }) /\ w.ok
    [] LN.st # "ok" -> FALSE
    [] w.t = "chk" -> w.ok
    [] w.t = "val" -> OBS = w.v
    [] OTHER -> LN.obs = w.v

Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine,
     op |-> LN.op, want |-> w.v ]))

Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vReg' = IF LN.dst > 0 THEN [ vReg EXCEPT ![LN.dst] = w.r ] ELSE vReg
           /\ vMode' = IF LN.op = "dualmode" /\ LN.s \in DualModes THEN LN.s
                       ELSE IF LN.op = "dualdef" THEN "I+" ELSE vMode
           /\ vDot' = IF LN.op = "dotmode" THEN LN.s ELSE vDot
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w)
           /\ UNCHANGED <<vLine, vReg, vMode, vDot>>
  /\ UNCHANGED vSess

Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" } /\ vMode \in DualModes
=============================================================================
