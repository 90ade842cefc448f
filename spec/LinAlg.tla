------------------------------- MODULE LinAlg -------------------------------
(* Matrices over Z/m, m prime, as sequences of rows.  Used for invertibility, determinants, *)
(* inverse metrics and linear transformations.                                              *)
EXTENDS Clifford

MatId(n) == TLCEval([ i \in 1..n |-> [ j \in 1..n |-> IF i = j THEN 1 ELSE 0 ] ])
MatMul(m, X, Y) == TLCEval([ i \in 1..Len(X) |-> TLCEval([ j \in 1..Len(Y[1]) |->
     FoldLeft(LAMBDA acc, k : Md(m, acc + X[i][k] * Y[k][j]), 0, [ k \in 1..Len(Y) |-> k ]) ]) ])
MatT(X) == TLCEval([ j \in 1..Len(X[1]) |-> TLCEval([ i \in 1..Len(X) |-> X[i][j] ]) ])
MatVec(m, X, v) == TLCEval([ i \in 1..Len(X) |->
     FoldLeft(LAMBDA acc, k : Md(m, acc + X[i][k] * v[k]), 0, [ k \in 1..Len(v) |-> k ]) ])
MatAdd(m, X, Y) == TLCEval([ i \in 1..Len(X) |-> TLCEval([ j \in 1..Len(X[1]) |-> Md(m, X[i][j] + Y[i][j]) ]) ])
MatSub(m, X, Y) == TLCEval([ i \in 1..Len(X) |-> TLCEval([ j \in 1..Len(X[1]) |-> Md(m, X[i][j] - Y[i][j]) ]) ])
MatScale(m, c, X) == TLCEval([ i \in 1..Len(X) |-> TLCEval([ j \in 1..Len(X[1]) |-> Md(m, c * X[i][j]) ]) ])
MatMod(m, X) == TLCEval([ i \in 1..Len(X) |-> TLCEval([ j \in 1..Len(X[1]) |-> Md(m, X[i][j]) ]) ])
MatTrace(m, X) == FoldLeft(LAMBDA acc, k : Md(m, acc + X[k][k]), 0, [ k \in 1..Len(X) |-> k ])

(* Gauss-Jordan on the augmented rows; returns [det, rows].  det = 0 iff singular *)
Elim(m, X) ==
  LET n == Len(X)
      Step(s, c) ==
        IF s.det = 0 THEN s
        ELSE LET piv == { r \in c..n : s.rows[r][c] # 0 } IN
          IF piv = {} THEN [ s EXCEPT !.det = 0 ]
          ELSE LET r == CHOOSE r \in piv : \A q \in piv : r <= q
                   sw == IF r = c THEN s.rows
                         ELSE [ s.rows EXCEPT ![r] = s.rows[c], ![c] = s.rows[r] ]
                   pv == sw[c][c]
                   iv == InvMod(m, pv)
                   nr == TLCEval([ j \in 1..Len(sw[c]) |-> Md(m, sw[c][j] * iv) ])
               IN [ det |-> Md(m, s.det * (IF r = c THEN pv ELSE m - pv)),
                    rows |-> TLCEval([ i \in 1..n |->
                       IF i = c THEN nr
                       ELSE IF sw[i][c] = 0 THEN sw[i]
                       ELSE TLCEval([ j \in 1..Len(nr) |-> Md(m, sw[i][j] - sw[i][c] * nr[j]) ]) ]) ]
  IN FoldLeft(Step, [ det |-> 1, rows |-> X ], [ c \in 1..n |-> c ])

Det(m, X) == IF Len(X) = 0 THEN 1 ELSE Elim(m, MatMod(m, X)).det
MatInv(m, X) ==     \* X must be invertible
  LET n == Len(X)
      E == Elim(m, TLCEval([ i \in 1..n |-> MatMod(m, X)[i] \o MatId(n)[i] ]))
  IN TLCEval([ i \in 1..n |-> SubSeq(E.rows[i], n+1, 2*n) ])

(* matrix of x |-> a x *)
LeftMat(A, a) == MatT([ J \in 1..Len(a) |-> Mul(A, a, Blade(A.n, J-1)) ])
Invertible(A, a) == Det(A.m, LeftMat(A, a)) # 0
=============================================================================
