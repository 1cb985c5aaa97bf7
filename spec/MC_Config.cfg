SPECIFICATION Spec
INVARIANTS Repeats Records Untouched
CHECK_DEADLOCK FALSE
CONSTANT Faulty = ""
