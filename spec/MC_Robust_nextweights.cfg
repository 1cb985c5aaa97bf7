SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 7
 Bug = "nextweights"
INVARIANTS Consistent Supported Resists
PROPERTIES Improves Terminates
