------------------------------ MODULE MC_Factory ------------------------------
(* Laws of the reading of metric texts and basis names, over every text built entry by entry, and the *)
(* enumeration of factory calls that is replayed into the code.                                        *)
EXTENDS Factory, Json
CONSTANTS M, MaxN, MaxCl, Gen
ENT == << <<"#">>, <<"0">>, <<"-", "1">>, <<"1", "/", "2">>, <<"2">>, <<"1", "2">>, <<"-", "3", "/", "7">> >>
CONSTANT Ents
VARIABLES vN, vRows, vE          \* dimension, 1 = single row, entries read so far (upper triangle, row by row)
vars == << vN, vRows, vE >>
Need(n, one) == IF one = 1 THEN n ELSE (n * (n + 1)) \div 2
Init == /\ vN \in 1..MaxN /\ vRows \in { 1, 2 } /\ (vN = 1 => vRows = 1) /\ vE = <<>>
Next == /\ Len(vE) < Need(vN, vRows)
        /\ \E x \in Ents : vE' = Append(vE, x)
        /\ UNCHANGED << vN, vRows >>
Spec == Init /\ [][Next]_vars
Full == Len(vE) = Need(vN, vRows)
(* position of (i, j), i <= j, in the upper triangle *)
At(n, i, j) == (i - 1) * n - ((i - 1) * (i - 2)) \div 2 + (j - i + 1)
EntAt(i, j) == IF vRows = 1 THEN (IF i = j THEN ENT[vE[i]] ELSE <<"0">>) ELSE ENT[vE[IF i <= j THEN At(vN, i, j) ELSE At(vN, j, i)]]
RECURSIVE Glue(_, _)
Glue(parts, c) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<c>> \o Glue(Tail(parts), c)
Text == IF vRows = 1 THEN Glue([ i \in 1..vN |-> EntAt(i, i) ], " ")
        ELSE Glue([ i \in 1..vN |-> Glue([ j \in 1..vN |-> EntAt(i, j) ], " ") ], ",")
Loose == IF vRows = 1 THEN Text
         ELSE Glue([ i \in 1..vN |-> << " " >> \o Glue([ j \in 1..vN |-> EntAt(i, j) ], " ") \o << " " >> ], ",")
D == [ i \in 1..MaxN |-> [ j \in 1..MaxN |-> 1000 * i + j ] ]       \* a different value for every place
G == MetricOf(M, vN, D, Text)
V(k) == CASE k = 2 -> 0 [] k = 3 -> M - 1 [] k = 4 -> InvMod(M, 2) [] k = 5 -> 2 [] k = 6 -> 12 [] k = 7 -> Md(M, (M - 3) * InvMod(M, 7)) [] OTHER -> 0
Symmetric == Full => \A i, j \in 1..vN : G[i][j] = G[j][i]
Placed == Full => \A i, j \in 1..vN : i <= j =>
            G[i][j] = (IF vRows = 1 /\ i # j THEN 0
                       ELSE LET k == vE[IF vRows = 1 THEN i ELSE At(vN, i, j)] IN IF k = 1 THEN 1000 * i + j ELSE V(k))
Spaces == Full => MetricOf(M, vN, D, Loose) = G
(* no metric given: every product of two basis vectors is its own symbol *)
Default == MetricOf(M, vN, D, << "?" >>) = MetricOf(M, vN, D, IF vN = 1 THEN <<"#">> ELSE Glue([ i \in 1..vN |-> Glue([ j \in 1..vN |-> <<"#">> ], " ") ], ","))
(* names *)
ASSUME \A n \in 1..9 : Names(<<"e", "*">> \o << DIG[n+1] >>, <<>>, TRUE) = [ i \in 1..n |-> "e_" \o NumStr(i-1) ]
ASSUME Names(<<"e", "*", "1", "2">>, <<>>, TRUE)[11] = "e_10"
ASSUME Names(<<"e", "*", "x", "|", "y">>, <<>>, TRUE) = << "e_x", "e_y" >>
ASSUME Names(<<"e", "*", "x", "|", "y">>, <<>>, FALSE) = << "e__x", "e__y" >>
ASSUME Names(<<"a", "_", "1", " ", "b", "_", "_", "2">>, <<>>, FALSE) = << "a__1", "b___2" >>
ASSUME Names(<<"a", ",">>, <<>>, TRUE) = << "a" >>
ASSUME Names(<<"e">>, << <<"r">>, <<"t", "h">> >>, TRUE) = << "e_r", "e_th" >>
ASSUME RNames(<<"a", " ", "b", "_", "1">>, <<>>) = << "a__", "b__1" >>
(* canonical order: every blade once, grades never fall, the scalar first and the pseudoscalar last *)
ASSUME \A n \in 1..5 : LET o == Order(n) IN
    /\ Len(o) = Pow2[n] /\ o[1] = 0 /\ o[Len(o)] = Pow2[n] - 1
    /\ { o[i] : i \in 1..Len(o) } = 0..(Pow2[n]-1)
    /\ \A i \in 1..(Len(o)-1) : Cardinality(Bits(o[i])) <= Cardinality(Bits(o[i+1]))
    /\ \A i \in 1..n : o[i+1] = Pow2[i-1]
(* the algebra of a signature: squares in order, orthogonal, and its names number the basis vectors *)
ASSUME \A p, q, r \in 0..MaxCl : p + q + r \in 1..MaxCl =>
    LET g == ClG(M, p, q, r)  n == p + q + r IN
      /\ \A i, j \in 1..n : i # j => g[i][j] = 0
      /\ Cardinality({ i \in 1..n : g[i][i] = 1 }) = p /\ Cardinality({ i \in 1..n : g[i][i] = M - 1 }) = q
      /\ \A c \in { "galgebra", "kingdon" } : Cardinality({ ClNames(p, q, r, c, "e")[i] : i \in 1..n }) = n
Emit == (Gen /\ Full) => PrintT(ToJson([ tag |-> "METRIC", n |-> vN, text |-> Str(Text), loose |-> Str(Loose) ]))
ASSUME Gen => \A p, q, r \in 0..MaxCl : p + q + r \in 1..MaxCl =>
          PrintT(ToJson([ tag |-> "CL", p |-> p, q |-> q, r |-> r ]))
===============================================================================
