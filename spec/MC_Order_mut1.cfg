SPECIFICATION Spec
INVARIANTS Attached
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Skip = {"frq"}
 Backwards = FALSE
