SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 7
 Bug = "centred"
INVARIANTS Consistent Supported Resists
PROPERTIES Improves Terminates
