SPECIFICATION Spec
CONSTANTS MM = 3 Full = FALSE
INVARIANTS Basis Linear Inner ConPairs Div MetC Leibniz ConComm
CHECK_DEADLOCK FALSE
