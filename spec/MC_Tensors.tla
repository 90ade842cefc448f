---- MODULE MC_Tensors ----
(* Laws of tensors in charts over Z/m: evaluation is multilinear, contraction is symmetric and gives the inner *)
(* product, the covariant derivative annihilates the metric, obeys the product rule and commutes with          *)
(* contraction; for every invertible symmetric metric with a family of first derivatives.  The operations are   *)
(* linear in (components, derivatives), so unit tensors suffice.                                                *)
EXTENDS Tensors
CONSTANTS MM, Full
VARIABLES vG, vDg, vC
vars == <<vG, vDg, vC>>
NN == 2
F == 0..(MM-1)
Sym == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Ones == [ i \in 1..NN |-> 1 ]
Init == vG \in { h \in Sym : Det(MM, h) # 0 } /\ vDg = <<>> /\ vC = <<>>
PickD == vDg = <<>> /\ (\E d \in [1..NN -> Sym] : (Full \/ (d[2][1][2] = 0 /\ d[1][1][1] = 0 /\ d[1][2][2] = 0))
          /\ vDg' = [ i \in 1..NN |-> [ j \in 1..NN |-> [ k \in 1..NN |-> d[k][i][j] ] ] ])
         /\ UNCHANGED <<vG, vC>>
Mk == vDg # <<>> /\ vC = <<>> /\ vC' = MkChart(MM, NN, vG, vDg, Ones, FALSE) /\ UNCHANGED <<vG, vDg>>
Next == PickD \/ Mk
Spec == Init /\ [][Next]_vars
On == vC # <<>>
A == vC.alg
S0 == Zero(NN)
S1 == Scal(NN, 1)
Unit(k, p) == [ k |-> k, c |-> [ q \in 1..IPow(NN, k) |-> IF q = p THEN S1 ELSE S0 ] ]
Null(k) == [ i \in 1..NN |-> [ q \in 1..IPow(NN, k) |-> S0 ] ]
(* derivative only: component p along coordinate i *)
UnitD(k, p, i) == [ j \in 1..NN |-> [ q \in 1..IPow(NN, k) |-> IF j = i /\ q = p THEN S1 ELSE S0 ] ]
V(a, b) == Vec(NN, <<a, b>>)
Vs == { V(a, b) : a, b \in F }
Basis == On => \A p \in 1..4 : \A i, j \in 1..NN :
   TEval(A, Unit(2, p), << V(IF i=1 THEN 1 ELSE 0, IF i=2 THEN 1 ELSE 0), V(IF j=1 THEN 1 ELSE 0, IF j=2 THEN 1 ELSE 0) >>) =
     IF p = (i-1)*2 + j THEN S1 ELSE S0
Linear == On => \A p \in 1..4 : \A x, y \in Vs : TEval(A, Unit(2, p), <<Add(MM, x, y), y>>) =
              Add(MM, TEval(A, Unit(2, p), <<x, y>>), TEval(A, Unit(2, p), <<y, y>>))
Low(u) == Ten(A, 1, LAMBDA i : Scal(NN, ScalProd(A, u, Blade(NN, Pow2[i-1]))[1]))
Inner == On => \A u, v \in Vs : TContract(A, TProd(A, "*", Low(u), Low(v)), 1, 2).c[1] = Scal(NN, ScalProd(A, u, v)[1])
ConPairs == On => \A p \in 1..16 : LET T == Unit(4, p) IN
   /\ TContract(A, TContract(A, T, 1, 2), 1, 2) = TContract(A, TContract(A, T, 3, 4), 1, 2)
   /\ TContract(A, TContract(A, T, 1, 3), 1, 2) = TContract(A, TContract(A, T, 2, 4), 1, 2)
(* contraction is the divergence of the derivative with respect to the slot *)
Div == On => \A p \in 1..4 : LET T == Unit(2, p) IN
   TContract(A, T, 1, 2).c[1] = SumMv(A, [ l \in 1..NN |-> HDot(A, Vec(NN, GInv(A)[l]), TPDiff(A, T, 1, << V(0,0), Blade(NN, Pow2[l-1]) >>)) ])
Met == [ k |-> 2, c |-> [ p \in 1..4 |-> Scal(NN, vG[Dig(NN, 2, p, 1)][Dig(NN, 2, p, 2)]) ] ]
DMet == [ i \in 1..NN |-> [ p \in 1..4 |-> Scal(NN, vDg[Dig(NN, 2, p, 1)][Dig(NN, 2, p, 2)][i]) ] ]
MetC == On => TCovD(vC, Ones, Met, DMet) = [ k |-> 3, c |-> [ p \in 1..8 |-> S0 ] ]
(* product rule; the slot of the derivative is the last one *)
Swap(T) == Ten(A, 3, LAMBDA p : T.c[Pos(NN, 3, LAMBDA s : Dig(NN, 3, p, IF s = 2 THEN 3 ELSE IF s = 3 THEN 2 ELSE 1))])
DProd(S, dS, T, dT) == [ i \in 1..NN |-> TAdd(A, TProd(A, "*", [ k |-> S.k, c |-> dS[i] ], T), TProd(A, "*", S, [ k |-> T.k, c |-> dT[i] ])).c ]
Leibniz == On => \A p, q \in 1..NN : \A i \in 0..NN :
  LET S == Unit(1, p)  T == Unit(1, q)
      dS == IF i = 0 THEN Null(1) ELSE UnitD(1, q, i)
      dT == IF i = 0 THEN Null(1) ELSE UnitD(1, p, i)
  IN TCovD(vC, Ones, TProd(A, "*", S, T), DProd(S, dS, T, dT)) =
      TAdd(A, TProd(A, "*", S, TCovD(vC, Ones, T, dT)),
              Ten(A, 3, LAMBDA x : TProd(A, "*", TCovD(vC, Ones, S, dS), T).c[Pos(NN, 3, LAMBDA s : Dig(NN, 3, x, IF s = 2 THEN 3 ELSE IF s = 3 THEN 2 ELSE 1))]))
(* derivative of the contraction of slots 1 and 2: d(g^ab) = - g^ac dg_cd g^db *)
DGInv(i, a, b) == LET gi == GInv(A) IN
  Md(MM, 0 - FoldLeft(LAMBDA acc, q : acc + gi[a][Dig(NN,2,q,1)] * vDg[Dig(NN,2,q,1)][Dig(NN,2,q,2)][i] * gi[Dig(NN,2,q,2)][b], 0, <<1,2,3,4>>))
DCon(T, d) == [ i \in 1..NN |-> << Add(MM, TContract(A, [ k |-> 2, c |-> d[i] ], 1, 2).c[1],
                 SumMv(A, [ q \in 1..4 |-> Scale(MM, DGInv(i, Dig(NN,2,q,1), Dig(NN,2,q,2)), T.c[q]) ])) >> ]
ConComm == On => \A p \in 1..4 : \A i \in 0..NN :
  LET T == IF i = 0 THEN Unit(2, p) ELSE [ k |-> 2, c |-> [ q \in 1..4 |-> S0 ] ]
      d == IF i = 0 THEN Null(2) ELSE UnitD(2, p, i)
  IN TCovD(vC, Ones, TContract(A, T, 1, 2), DCon(T, d)) = TContract(A, TCovD(vC, Ones, T, d), 1, 2)
====
