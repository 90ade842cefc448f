SPECIFICATION Spec
CONSTANTS MM = 5 NN = 2
INVARIANTS VecSq Assoc WAssoc WGrade Anti Adj LCMirror DotSplit OrthoEq
CHECK_DEADLOCK FALSE
