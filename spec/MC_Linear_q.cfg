SPECIFICATION Spec
CONSTANTS
 P = 3
 N = 2
INVARIANTS Det1 Outer Unit Adj Inv Func DetMul TraceSym AdjAnti Versor
CHECK_DEADLOCK FALSE
