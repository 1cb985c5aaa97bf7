SPECIFICATION Spec
INVARIANTS Repeats
CHECK_DEADLOCK FALSE
CONSTANT Faulty = "forgets"
