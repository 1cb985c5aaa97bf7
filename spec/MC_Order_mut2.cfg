SPECIFICATION Spec
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Skip = {}
 Backwards = TRUE
