SPECIFICATION Spec
CONSTANTS MM = 3 NN = 3
INVARIANTS VecSq Assoc WAssoc WGrade Anti Adj LCMirror DotSplit
CHECK_DEADLOCK FALSE
