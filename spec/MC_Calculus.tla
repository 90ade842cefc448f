---- MODULE MC_Calculus ----
(* Laws of the connection, for every symmetric invertible metric and every 1-jet of it over Z/m, n = 2: *)
(* metric compatibility, freedom of torsion, the product rule for the geometric, outer and inner       *)
(* products (structure constants differentiated exactly, as T(g + m dg) mod m^2), normalised frames.   *)
EXTENDS Calculus
CONSTANTS MM, NN, Full
VARIABLES vG, vDg, vC
vars == <<vG, vDg, vC>>
F == 0..(MM-1)
Sym == { h \in [1..NN -> [1..NN -> F]] : \A i, j \in 1..NN : h[i][j] = h[j][i] }
Ones == [ i \in 1..NN |-> 1 ]
Init == vG \in { h \in Sym : Det(MM, h) # 0 } /\ vDg = <<>> /\ vC = <<>>
PickD == vDg = <<>> /\ (\E d \in [1..NN -> Sym] : (Full \/ d[2] = d[1] \/ (d[2][1][2] = 0 /\ d[1][1][1] = 0 /\ d[1][2][2] = 0)) /\ vDg' = [ i \in 1..NN |-> [ j \in 1..NN |-> [ k \in 1..NN |-> d[k][i][j] ] ] ])
         /\ UNCHANGED <<vG, vC>>
Mk == vDg # <<>> /\ vC = <<>> /\ vC' = MkChart(MM, NN, vG, vDg, Ones, FALSE) /\ UNCHANGED <<vG, vDg>>
Next == PickD \/ Mk
Spec == Init /\ [][Next]_vars
On == vC # <<>>
V1(x) == [ i \in 1..NN |-> x[Pow2[i-1]+1] ]
Dot(x, y) == ScalProd(vC.alg, x, y)[1]
B(M) == Blade(NN, M)
E(i) == B(Pow2[i-1])
Compat == On => \A i, j, k \in 1..NN : vDg[i][j][k] = Md(MM, Dot(vC.conn[k][i], E(j)) + Dot(E(i), vC.conn[k][j]))
NoTorsion == On => \A i, j \in 1..NN : vC.conn[i][j] = vC.conn[j][i]
(* derivative of the structure constants along k *)
MM2 == MM * MM
Lift(k) == LET gk == TLCEval([ i \in 1..NN |-> [ j \in 1..NN |-> vG[i][j] + MM * vDg[i][j][k] ] ])
           IN [ m |-> MM2, n |-> NN, T |-> MkAlg(MM2, NN, gk).T ]
DT(A1, A0, op, I, J) ==
  LET d  == Sub(MM2, ProdOf(A1, op, B(I), B(J)), ProdOf(A0, op, B(I), B(J)))
  IN TLCEval([ t \in 1..Len(d) |-> d[t] \div MM ])
Leibniz == On => LET A0 == TLCEval([ m |-> MM2, n |-> NN, T |-> MkAlg(MM2, NN, vG).T ]) IN
   \A k \in 1..NN : LET A1 == TLCEval(Lift(k))
                         BD == TLCEval([ M \in 1..Pow2[NN] |-> BladeDeriv(vC, k, M-1) ]) IN
   \A op \in { "*", "|", "<", ">" } : \A I, J \in 0..(Pow2[NN]-1) :
   CovD(vC, k, ProdOf(vC.alg, op, B(I), B(J)), DT(A1, A0, op, I, J)) =
     Add(MM, ProdOf(vC.alg, op, BD[I+1], B(J)), ProdOf(vC.alg, op, B(I), BD[J+1]))
LeibnizW == On => \A k \in 1..NN : \A I, J \in 0..(Pow2[NN]-1) :
   CovD(vC, k, Wedge(MM, B(I), B(J)), Zero(NN)) =
     Add(MM, Wedge(MM, BladeDeriv(vC, k, I), B(J)), Wedge(MM, B(I), BladeDeriv(vC, k, J)))
Recip == On => \A i, j \in 1..NN : Dot(vC.w[i], E(j)) = IF i = j THEN 1 ELSE 0
(* normalised frames: only where g is diagonal and its entries are, up to sign, squares *)
Rt(x) == { y \in 1..(MM-1) : Md(MM, y*y) \in { Md(MM, x), Md(MM, 0 - x) } }
Normed == On /\ (\A i, j \in 1..NN : i # j => vG[i][j] = 0 /\ \A k \in 1..NN : vDg[i][j][k] = 0)
             /\ (\A i \in 1..NN : Rt(vG[i][i]) # {}) =>
   \A nu \in { u \in [1..NN -> 1..(MM-1)] : \A i \in 1..NN : u[i] \in Rt(vG[i][i]) } :
     LET H == MkChart(MM, NN, vG, vDg, nu, TRUE) IN
       /\ \A i, j, k \in 1..NN : Md(MM, ScalProd(H.alg, H.conn[k][i], E(j))[1] + ScalProd(H.alg, E(i), H.conn[k][j])[1]) = 0
       /\ \A i \in 1..NN : ScalProd(H.alg, E(i), E(i))[1] \in { 1, MM - 1 }
       /\ \A i, j \in 1..NN : (* the frame vector is e_j / nu_j *)
            H.conn[i][j] = Vec(NN, [ l \in 1..NN |-> Md(MM, InvMod(MM, nu[j]) * nu[l] * V1(vC.conn[i][j])[l]
                 - (IF l = j THEN DNu(MM, vG, vDg, nu, j, i) * InvMod(MM, nu[j]) ELSE 0)) ])
====
