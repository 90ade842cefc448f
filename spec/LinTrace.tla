------------------------------ MODULE LinTrace ------------------------------
(* Conformance of recorded sessions with linear transformations.  A transformation register holds *)
(* its matrix (column j: image of e_j); a field register holds a multivector.  Every observed      *)
(* transformation is compared twice: by its matrix and by its images of the basis vectors.         *)
EXTENDS Linear, Json, IOUtils

TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
ASSUME TLCSet(7, TLCEval([ a \in 1..Len(TR.algs) |-> MkAlg(TR.m, TR.algs[a].n, TR.algs[a].g) ]))

VARIABLES vSess, vLine, vMat, vFld, vStat
vars == <<vSess, vLine, vMat, vFld, vStat>>
NREG == 24
Init == /\ vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vStat = "run"
        /\ vMat = [ r \in 1..NREG |-> <<>> ] /\ vFld = [ r \in 1..NREG |-> <<>> ]
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
CA == TLCGet(7)[LN.al]
CN == CA.n
MA == vMat[LN.a]
MB == vMat[LN.b]
FA == vFld[LN.a]
FB == vFld[LN.b]
OBS == IF LN.obsb = <<>> THEN LN.obs ELSE Add(MOD, LN.obs, FromBase(CA, LN.obsb))

Fld(F) == [ t |-> "fld", f |-> F, m |-> <<>>, ok |-> TRUE, v |-> F ]
Mat(X) == [ t |-> "mat", f |-> <<>>, m |-> X, ok |-> TRUE, v |-> X ]
Num(x) == [ t |-> "num", f |-> <<>>, m |-> <<>>, ok |-> TRUE, v |-> <<x>> ]
Bool(b) == [ t |-> "num", f |-> <<>>, m |-> <<>>, ok |-> TRUE, v |-> IF b THEN <<1>> ELSE <<0>> ]
Chk(b) == [ t |-> "chk", f |-> <<>>, m |-> <<>>, ok |-> b, v |-> <<>> ]
(* the observed transformation is adopted when the defining relation holds of it *)
Adopt(b) == [ t |-> "adopt", f |-> <<>>, m |-> LN.mat, ok |-> b, v |-> <<>> ]
Raise == [ t |-> "raise", f |-> <<>>, m |-> <<>>, ok |-> TRUE, v |-> <<>> ]

(* matrix of a map on vectors given by the images of the basis vectors *)
FromImages(f(_)) == MatT([ j \in 1..CN |-> LET y == TLCEval(f(Blade(CN, Pow2[j-1]))) IN
                                             TLCEval([ i \in 1..CN |-> y[Pow2[i-1]+1] ]) ])
(* the vector-valued linear functions used to specify transformations *)
Fun(v) ==
  CASE LN.s = "dyad" -> Add(MOD, Scale(MOD, Mul(CA, v, FA)[1], FB), Scale(MOD, LN.c, v))   \* (v|u) w + c v
    [] LN.s = "sand" -> Mul(CA, Mul(CA, FA, v), FA)                                          \* u v u
    [] LN.s = "contr" -> LC(CA, v, FA)                                                       \* v _| B
    [] OTHER -> Scale(MOD, LN.c, v)
Symmetric(X) == \A i \in 1..CN : \A j \in 1..CN : X[i][j] = X[j][i]
Antisym(X) == \A i \in 1..CN : \A j \in 1..CN : Md(MOD, X[i][j] + X[j][i]) = 0
NSym(s) == IF s = "s" THEN (CN * (CN + 1)) \div 2 ELSE IF s = "a" THEN (CN * (CN - 1)) \div 2 ELSE CN * CN
GM(X) == MatMul(MOD, CA.g, X)

Want ==
  CASE LN.op = "newf" -> Fld(LN.df)
    [] LN.op = "newl" -> Mat(MatOfList(CN, LN.df))
    [] LN.op = "lfun" -> Mat(FromImages(Fun))
    [] LN.op = "sym" -> IF LN.st # "ok" THEN Chk(FALSE) ELSE
         Adopt(/\ LN.cnt = NSym(LN.s)
               /\ LN.s = "s" => Symmetric(GM(LN.mat))
               /\ LN.s = "a" => Antisym(GM(LN.mat)))
    [] LN.op = "versor" -> IF LN.st # "ok" THEN Chk(FALSE) ELSE Adopt(IsSandwich(CA, FA, LN.mat))
    [] LN.op = "vprod" -> Fld(Mul(CA, FA, FB))
    [] LN.op = "obs" -> IF MA # <<>> THEN Mat(MA) ELSE Fld(FA)
    [] LN.op = "ladd" -> Mat(MatAdd(MOD, MA, MB))
    [] LN.op = "lsub" -> Mat(MatSub(MOD, MA, MB))
    [] LN.op = "lmul" -> Mat(MatMul(MOD, MA, MB))
    [] LN.op = "lscale" -> Mat(MatScale(MOD, LN.c, MA))
    [] LN.op = "ladj" -> Mat(AdjMat(CA, MA))
    [] LN.op = "linv" -> IF Det(MOD, MA) = 0 THEN Raise ELSE Mat(MatInv(MOD, MA))
    [] LN.op = "same" -> Mat(MA)
    [] LN.op = "appl" -> Fld(Outermorph(CA, MA, FB))
    [] LN.op = "det" -> Num(Det(MOD, MA))
    [] LN.op = "tr" -> Num(MatTrace(MOD, MA))
    [] LN.op = "sing" -> Bool(Det(MOD, MA) = 0)
    [] LN.op = "raise" -> Raise
    [] OTHER -> Chk(FALSE)

ColsOK(X) == \A j \in 1..CN : LN.img[j] = Col(CN, X, j)
Good(w) ==
  CASE LN.st = "skip" -> TRUE
    [] w.t = "raise" -> LN.st = "exc"
    [] LN.st # "ok" -> FALSE
    [] w.t = "fld" -> LN.kind = "fld" /\ OBS = w.v
    [] w.t = "mat" -> LN.kind = "mat" /\ LN.mat = w.m /\ ColsOK(w.m)
    [] w.t = "adopt" -> LN.kind = "mat" /\ w.ok /\ ColsOK(w.m)
    [] w.t = "num" -> LN.kind = "num" /\ LN.obs = w.v
    [] OTHER -> w.ok
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w.v ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1
           /\ vMat' = IF LN.dst > 0 /\ w.t \in { "mat", "adopt" } THEN [ vMat EXCEPT ![LN.dst] = w.m ] ELSE vMat
           /\ vFld' = IF LN.dst > 0 /\ w.t = "fld" THEN [ vFld EXCEPT ![LN.dst] = w.f ] ELSE vFld
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", [v |-> <<>>]))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED <<vLine, vMat, vFld>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
