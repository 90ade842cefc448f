------------------------------ MODULE MltTrace ------------------------------
(* Conformance of recorded sessions with multilinear transformations.  A tensor register holds its *)
(* components in the frame and their coordinate derivatives, a field register a multivector and    *)
(* its derivatives.                                                                               *)
EXTENDS Tensors, Json, IOUtils

TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |->
    MkChart(TR.m, TR.algs[a].n, TR.algs[a].g, TR.algs[a].dg, TR.algs[a].nu, TR.algs[a].normed = 1) ]))
Chart(a) == TLCGet(7)[a]

VARIABLES vSess, vLine, vTen, vFld, vStat
vars == <<vSess, vLine, vTen, vFld, vStat>>
NREG == 30
NoTen == [ k |-> -1, c |-> <<>>, d |-> <<>> ]
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vTen = [ r \in 1..NREG |-> NoTen ] /\ vFld = [ r \in 1..NREG |-> <<>> ]

Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CH == Chart(LN.al)
CA == CH.alg
CN == CA.n
NU == TR.algs[LN.al].nu
TA == vTen[LN.a]
TB == vTen[LN.b]
XS == [ s \in 1..Len(LN.args) |-> vFld[LN.args[s]] ]
FX == vFld[LN.args[1]]
FY == vFld[LN.args[2]]
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))

Fld(v) == [ t |-> "fld", v |-> v, k |-> 0 ]
Tn(T) == [ t |-> "ten", v |-> T.c, k |-> T.k ]
(* the observed components are adopted when the condition holds *)
Adopt(b) == [ t |-> "adopt", v |-> b, k |-> 0 ]
Raise == [ t |-> "raise", v |-> <<>>, k |-> 0 ]
E(i) == Blade(CN, Pow2[i-1])
Sc(x) == Scal(CN, x)
Dot(x, y) == ScalProd(CA, x, y)
(* functions of vectors by which tensors are defined *)
Rank(s) == CASE s \in { "id", "dyad" } -> 1 [] s \in { "met", "biv", "forms", "vv", "prod" } -> 2 [] OTHER -> 3
Fun(s, e) ==
  CASE s = "id" -> e[1]
    [] s = "dyad" -> Scale(MOD, Dot(e[1], FX)[1], FY)
    [] s = "met" -> Dot(e[1], e[2])
    [] s = "biv" -> HDot(CA, FX, Wedge(MOD, e[1], e[2]))
    [] s = "forms" -> Mul(CA, Dot(e[1], FX), Dot(e[2], FY))
    [] s = "vv" -> Add(MOD, Scale(MOD, Dot(e[1], e[2])[1], FX), Scale(MOD, Dot(e[2], FY)[1], e[1]))
    [] s = "prod" -> Mul(CA, e[1], e[2])
    [] s = "tri" -> HDot(CA, FX, Wedge(MOD, Wedge(MOD, e[1], e[2]), e[3]))
    [] s = "mix" -> Mul(CA, Dot(e[1], e[3]), Dot(e[2], FX))
ByFun(s) == Ten(CA, Rank(s), LAMBDA p : Fun(s, [ j \in 1..Rank(s) |-> E(Dig(CN, Rank(s), p, j)) ]))
ByList(k, l) == Ten(CA, k, LAMBDA p : Sc(l[p]))
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x

Want ==
  CASE LN.op = "newf" -> Fld(LN.df)
    [] LN.op = "str" -> Adopt(LN.st = "ok" => (LN.cnt = IPow(CN, LN.k) /\ Len(LN.ten) = LN.cnt))
    [] LN.op = "comp" -> Tn(ByList(LN.k, LN.df))
    [] LN.op = "vec" -> Tn(Ten(CA, 1, LAMBDA p : Dot(FX, E(p))))
    [] LN.op = "lin" -> Tn(Ten(CA, 2, LAMBDA p :         \* a1 . f(a2), f given by its matrix
          Dot(E(Dig(CN, 2, p, 1)), Vec(CN, [ i \in 1..CN |-> LN.df[(i-1)*CN + Dig(CN, 2, p, 2)] ]))))
    [] LN.op = "fun" -> Tn(ByFun(LN.s))
    [] LN.op = "obs" -> IF TA.k >= 0 THEN Tn(TA) ELSE Fld(vFld[LN.a])
    [] LN.op = "same" -> Tn(TA)
    [] LN.op = "eval" -> Fld(TEval(CA, TA, XS))
    [] LN.op = "slots" -> Fld(TEval(CA, TA, XS))
    [] LN.op = "tadd" -> Tn(TAdd(CA, TA, TB))
    [] LN.op = "tsub" -> Tn(TSub(CA, TA, TB))
    [] LN.op = "tscale" -> Tn(TScale(CA, LN.c, TA))
    [] LN.op = "tprod" -> Tn(TProd(CA, LN.s, TA, TB))
    [] LN.op = "contract" -> Tn(TContract(CA, TA, Lo(LN.k, LN.k2), Hi(LN.k, LN.k2)))
    [] LN.op = "pdiff" -> Fld(TPDiff(CA, TA, LN.k, XS))
    [] LN.op = "dd" -> Tn(TDD(CH, NU, TA, TA.d))
    [] LN.op = "cderiv" -> Tn(TCovD(CH, NU, TA, TA.d))
    [] LN.op = "raise" -> Raise
    [] OTHER -> Adopt(FALSE)

Good(w) == CASE LN.st = "skip" -> TRUE
             [] w.t = "raise" -> LN.st = "exc"
             [] LN.st # "ok" -> FALSE
             [] w.t = "fld" -> LN.kind = "fld" /\ OBS = w.v
             [] w.t = "ten" -> LN.kind = "ten" /\ LN.rank = w.k /\ LN.ten = w.v
             [] OTHER -> w.v
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w.v ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vTen' = IF LN.dst > 0 /\ LN.st = "ok" /\ w.t \in { "ten", "adopt" }
                      THEN [ vTen EXCEPT ![LN.dst] = [ k |-> LN.rank, c |-> LN.ten, d |-> LN.dten ] ] ELSE vTen
           /\ vFld' = IF LN.dst > 0 /\ LN.st = "ok" /\ w.t = "fld" THEN [ vFld EXCEPT ![LN.dst] = OBS ] ELSE vFld
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vTen, vFld>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
