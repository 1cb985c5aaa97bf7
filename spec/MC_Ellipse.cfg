SPECIFICATION Spec
INVARIANTS SameHalfTurn Sense VecOk Turn AxesOk
CHECK_DEADLOCK FALSE
