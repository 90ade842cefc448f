---- MODULE MC_Coords ----
(* The vector derivative does not depend on the coordinates: for a change of coordinates x = x(y) given by its   *)
(* first and second derivatives J[i][a], H[i][a][b] at a point, the metric, the field and their derivatives are  *)
(* carried over by the chain rule, the derivative is formed with the chart of y, and its value, expressed in the *)
(* frame of x, is the one formed with the chart of x.  All metrics, elementary 1-jets of metrics and of scalar   *)
(* and vector fields over Z/MM for n = 2 (grad is linear in the field, the connection in the jet of the metric). *)
EXTENDS Calculus
CONSTANTS MM, NN, Full
VARIABLES vG, vDg, vJ, vH, vX, vY
vars == <<vG, vDg, vJ, vH, vX, vY>>
F == 0..(MM-1)
R == 1..NN
Sum(f(_)) == FoldLeft(LAMBDA acc, i : Md(MM, acc + f(i)), 0, [ i \in R |-> i ])
Sym == { h \in [R -> [R -> F]] : \A i, j \in R : h[i][j] = h[j][i] }
Mats == { h \in [R -> [R -> F]] : Det(MM, h) # 0 }
Ones == [ i \in R |-> 1 ]
Elem == { [ i \in R |-> [ j \in R |-> IF { i, j } = { a, b } THEN 1 ELSE 0 ] ] : a, b \in R }
Nought == [ i \in R |-> [ j \in R |-> 0 ] ]
Init == vG \in { h \in Sym : Det(MM, h) # 0 } /\ vDg = <<>> /\ vJ = <<>> /\ vH = <<>> /\ vX = <<>> /\ vY = <<>>
PickD == vDg = <<>> /\ (\E d \in [R -> Elem \cup { Nought }] : (Full \/ d[1] = d[2] \/ d[2] = Nought)
           /\ vDg' = [ i \in R |-> [ j \in R |-> [ k \in R |-> d[k][i][j] ] ] ])
         /\ UNCHANGED <<vG, vJ, vH, vX, vY>>
PickJ == vDg # <<>> /\ vJ = <<>> /\ vJ' \in (IF Full THEN { h \in Mats : h[1][1] # 2 /\ h[2][2] # 1 } ELSE { << <<1, 1>>, <<0, 2>> >>, << <<0, 1>>, <<2, 1>> >> })
         /\ UNCHANGED <<vG, vDg, vH, vX, vY>>
PickH == vJ # <<>> /\ vH = <<>> /\ (\E h \in Elem \cup { Nought }, i \in R : vH' = [ j \in R |-> IF i = j THEN h ELSE [ a \in R |-> [ b \in R |-> 0 ] ] ])
         /\ UNCHANGED <<vG, vDg, vJ, vX, vY>>
(* the metric carried over *)
HgOf(J, g) == TLCEval([ a \in R |-> TLCEval([ b \in R |-> Sum(LAMBDA i : Sum(LAMBDA j : J[i][a] * J[j][b] * g[i][j])) ]) ])
HdgOf(J, H, g, dg) == TLCEval([ a \in R |-> TLCEval([ b \in R |-> TLCEval([ c \in R |->
         Sum(LAMBDA i : Sum(LAMBDA j : (H[i][a][c] * J[j][b] + J[i][a] * H[j][b][c]) * g[i][j]
                                     + J[i][a] * J[j][b] * Sum(LAMBDA k : dg[i][j][k] * J[k][c]))) ]) ]) ])
Mk == vH # <<>> /\ vX = <<>> /\ vX' = MkChart(MM, NN, vG, vDg, Ones, FALSE) /\ vY' = MkChart(MM, NN, HgOf(vJ, vG), HdgOf(vJ, vH, vG, vDg), Ones, FALSE)
      /\ UNCHANGED <<vG, vDg, vJ, vH>>
Next == PickD \/ PickJ \/ PickH \/ Mk
Spec == Init /\ [][Next]_vars
On == vX # <<>>
K == MatInv(MM, vJ)
(* a multivector of the frame of y expressed in the frame of x: the outermorphism of f_a = sum_i J[i][a] e_i *)
ToX(y) == FoldLeft(LAMBDA acc, M : IF y[M] = 0 THEN acc ELSE Add(MM, acc, Scale(MM, y[M],
              FoldLeft(LAMBDA b, a : IF a \in Bits(M-1) THEN Wedge(MM, b, Vec(NN, [ i \in R |-> vJ[i][a] ])) ELSE b,
                       Scal(NN, 1), [ a \in R |-> a ]))), Zero(NN), [ M \in 1..Pow2[NN] |-> M ])
(* scalar fields with one derivative *)
Scalars == On => \A k \in R :
  LET dFx == [ i \in R |-> Scal(NN, IF i = k THEN 1 ELSE 0) ]
      dFy == TLCEval([ a \in R |-> Scal(NN, vJ[k][a]) ])
  IN ToX(GradL(vY, "*", Zero(NN), dFy)) = GradL(vX, "*", Zero(NN), dFx)
(* vector fields: a constant component, and one whose derivative along one coordinate is one *)
VecX(v) == Vec(NN, v)
Ky(v) == TLCEval([ a \in R |-> Sum(LAMBDA i : K[a][i] * v[i]) ])
(* d(K V)/dy^c = K dV/dx J - K dJ/dy^c K V *)
Field(V, dV) == LET w == Ky(V)
                IN TLCEval([ c \in R |-> Ky([ i \in R |-> Md(MM, Sum(LAMBDA k : dV[k][i] * vJ[k][c]) - Sum(LAMBDA a : vH[i][a][c] * w[a])) ]) ])
Unit(i) == [ j \in R |-> IF i = j THEN 1 ELSE 0 ]
Nil == [ j \in R |-> 0 ]
Agree(V, dV) == LET W == Ky(V)  dW == Field(V, dV) IN
  \A op \in { "*", "^", "|" } :
    /\ ToX(GradL(vY, op, VecX(W), [ c \in R |-> VecX(dW[c]) ])) = GradL(vX, op, VecX(V), [ k \in R |-> VecX(dV[k]) ])
    /\ ToX(GradR(vY, op, VecX(W), [ c \in R |-> VecX(dW[c]) ])) = GradR(vX, op, VecX(V), [ k \in R |-> VecX(dV[k]) ])
Vectors == On => \A i \in R : Agree(Unit(i), [ k \in R |-> Nil ]) /\ \A k \in R : Agree(Nil, [ l \in R |-> IF l = k THEN Unit(i) ELSE Nil ])
====
