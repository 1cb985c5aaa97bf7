SPECIFICATION Spec
INVARIANTS Untouched
CHECK_DEADLOCK FALSE
CONSTANT Faulty = "fillsarg"
