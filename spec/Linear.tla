------------------------------- MODULE Linear -------------------------------
(* Linear transformations of the vectors, given by matrices (column j is the image of e_j), and  *)
(* their extension to multivectors as outermorphisms.                                             *)
EXTENDS Frames
Col(n, M, j) == Vec(n, TLCEval([ i \in 1..n |-> M[i][j] ]))
(* image of each basis blade: the exterior product of the images of its factors *)
Images(A, M) == TLCEval([ K \in 1..Pow2[A.n] |->
    FoldLeft(LAMBDA acc, j : IF Bit(K-1, j) = 1 THEN Wedge(A.m, acc, Col(A.n, M, j)) ELSE acc,
             Scal(A.n, 1), [ j \in 1..A.n |-> j ]) ])
Outermorph(A, M, F) ==
  LET im == Images(A, M) IN
    FoldLeft(LAMBDA acc, K : IF F[K] = 0 THEN acc ELSE Add(A.m, acc, Scale(A.m, F[K], im[K])),
             Zero(A.n), [ K \in 1..Len(F) |-> K ])
AdjMat(A, M) == MatMul(A.m, MatInv(A.m, A.g), MatMul(A.m, MatT(M), A.g))
(* X is the matrix of x |-> V^ x V^-1 (V invertible, V^ its grade involution) *)
IsSandwich(A, V, X) == \A j \in 1..A.n :
     Mul(A, GInvol(A.m, V), Blade(A.n, Pow2[j-1])) = Mul(A, Col(A.n, X, j), V)
MatOfList(n, s) == TLCEval([ i \in 1..n |-> TLCEval([ j \in 1..n |-> s[(i-1)*n + j] ]) ])
=============================================================================
