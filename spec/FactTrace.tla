------------------------------ MODULE FactTrace ------------------------------
(* Conformance of recorded histories of algebra factories.  The mode of the dual is the state. *)
EXTENDS Factory, Json, IOUtils
TR == JsonDeserialize(IOEnv.TRACE)
MOD == TR.m
VARIABLES vSess, vLine, vMode, vStat
vars == <<vSess, vLine, vMode, vStat>>
Init == vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vMode = "I+" /\ vStat = "run"
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
Flat(M) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, M)
Eye(n) == [ i \in 1..n |-> [ j \in 1..n |-> IF i = j THEN 1 ELSE 0 ] ]
Induced(m, J) == TLCEval([ i \in 1..Len(J) |-> TLCEval([ j \in 1..Len(J) |->
                    FoldLeft(LAMBDA acc, k : Md(m, acc + J[i][k] * J[j][k]), 0, [ k \in 1..Len(J[i]) |-> k ]) ]) ])
BD(n) == LET o == Order(n) IN [ i \in 1..(Len(o)-1) |->
     FoldLeft(LAMBDA acc, j : acc \o LN.ix[j], LN.prefix, IxSeq(o[i+1])) ]
Want ==
  CASE LN.op = "ga" -> [ names |-> Names(LN.basis, LN.ix, TRUE), rnames |-> RNames(LN.basis, LN.ix) ]
                       @@ [ g |-> Flat(MetricOf(MOD, LN.n, LN.D, LN.text)), dots |-> Flat(MetricOf(MOD, LN.n, LN.D, LN.text)) ]
    [] LN.op = "values" -> [ names |-> Names(LN.basis, LN.ix, TRUE), rnames |-> RNames(LN.basis, LN.ix),
                             g |-> Flat(LN.G), dots |-> Flat(LN.G) ]
    [] LN.op = "chart" -> LET W == Induced(MOD, LN.G) IN        \* coordinates on a space given by its embedding
         [ names |-> Names(LN.basis, LN.ix, TRUE), raw |-> Flat(W),
           g |-> Flat(IF LN.norm = 1 THEN Eye(LN.n) ELSE W), dots |-> Flat(IF LN.norm = 1 THEN Eye(LN.n) ELSE W) ]
    [] LN.op = "cl" -> [ names |-> ClNames(LN.p, LN.q, LN.r, LN.conv, LN.root), count |-> LN.p + LN.q + LN.r,
                         g |-> Flat(ClG(MOD, LN.p, LN.q, LN.r)), dots |-> Flat(ClG(MOD, LN.p, LN.q, LN.r)) ]
    [] LN.op = "blades" -> LET o == Order(LN.n) IN
         [ index |-> [ i \in 1..Len(o) |-> [ j \in 1..Cardinality(Bits(o[i])) |-> IxSeq(o[i])[j] - 1 ] ],
           grades |-> [ i \in 1..Len(o) |-> Cardinality(Bits(o[i])) ],
           text |-> [ i \in 1..Len(o) |-> IF o[i] = 0 THEN "1"
                       ELSE IF LN.wedge = 1 \/ Cardinality(Bits(o[i])) = 1 THEN Join(LN.names, IxSeq(o[i]), "^")
                       ELSE LN.root \o "_" \o FoldLeft(LAMBDA acc, j : acc \o LN.ix[j], "", IxSeq(o[i])) ],
           mvs |-> Flat([ i \in 1..Len(o) |-> Blade(LN.n, o[i]) ]) ]
         @@ (IF LN.digits = 1 THEN [ dict |-> BD(LN.n), dictv |-> Flat([ i \in 1..(Len(o)-1) |-> Blade(LN.n, o[i+1]) ]) ] ELSE [ digits |-> 0 ])
    [] LN.op = "sig" -> [ sig |-> IF LN.hint = "num" THEN << Cardinality({ i \in 1..LN.n : LN.sq[i] > 0 }), Cardinality({ i \in 1..LN.n : LN.sq[i] < 0 }) >>
                                  ELSE IF LN.hint = "e" THEN << LN.n, 0 >> ELSE IF LN.hint = "m+" THEN << LN.n - 1, 1 >>
                                  ELSE IF LN.hint = "m-" THEN << 1, LN.n - 1 >> ELSE << LN.p, LN.n - LN.p >> ]
    [] LN.op = "mode" -> [ ok |-> 1 ]
    [] OTHER -> [ ok |-> "?" ]
NextMode == CASE LN.op = "cl" -> ClMode(LN.conv)
              [] LN.op = "mode" -> LN.conv
              [] OTHER -> vMode
Good(w) == LN.st = "skip" \/ (LN.st = "ok" /\ (\A f \in DOMAIN w : f \in DOMAIN LN.obs /\ LN.obs[f] = w[f]) /\ LN.mode = NextMode)
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1 /\ vMode' = NextMode
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", <<>>))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w @@ [ mode |-> NextMode ]) /\ UNCHANGED <<vLine, vMode>>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
==============================================================================
