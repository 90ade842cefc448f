SPECIFICATION Spec
CONSTANTS MM = 3 Full = TRUE
INVARIANTS Basis Linear Inner ConPairs Div MetC Leibniz ConComm
CHECK_DEADLOCK FALSE
