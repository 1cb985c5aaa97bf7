SPECIFICATION Spec
INVARIANTS Records
CHECK_DEADLOCK FALSE
CONSTANT Faulty = "respells"
