SPECIFICATION Spec
INVARIANTS Attached InOrder
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Skip = {}
 Backwards = FALSE
