----------------------------- MODULE MC_Mixing -----------------------------
(* A pool of objects grows by combinations.  Each object carries the algebras that contributed to it: never two.  *)
(* The (kind, algebra, operation, kind, algebra) of every first combination is printed for replay on the code.    *)
EXTENDS Mixing, TLC, Json
CONSTANTS NAlg, Depth, Rel
VARIABLES vPool, vN
vars == <<vPool, vN>>
Obj(k, a) == [ kind |-> k, alg |-> a, from |-> {a} ]
Init == /\ vN = 0
        /\ \E k1, k2 \in Kinds, a, b \in 1..NAlg : vPool = << Obj(k1, a), Obj(k2, b) >>
(* what an operation can give: any kind of object, or nothing that belongs to an algebra *)
Results(x, op, y) == IF MustRaise(x, y) THEN {} ELSE Rel \X { x.from \cup y.from }
Combine(i, j, op) ==
  /\ Defined(vPool[i], op, vPool[j])
  /\ vN' = vN + 1
  /\ \/ vPool' = vPool                                             \* it fails, or the result is a number
     \/ \E r \in Results(vPool[i], op, vPool[j]) :
          vPool' = Append(vPool, [ kind |-> r[1], alg |-> vPool[i].alg, from |-> r[2] ])
Next == vN < Depth /\ \E i, j \in 1..Len(vPool), op \in Ops : Combine(i, j, op)
Spec == Init /\ [][Next]_vars
Pure == \A i \in 1..Len(vPool) : vPool[i].from = { vPool[i].alg }
Emit == (vN = 0) => PrintT(ToJson([ tag |-> "PAIR", x |-> <<vPool[1].kind, vPool[1].alg>>, y |-> <<vPool[2].kind, vPool[2].alg>>,
                                    ops |-> { op \in Ops : Defined(vPool[1], op, vPool[2]) },
                                    must |-> MustRaise(vPool[1], vPool[2]) ]))
=============================================================================
