SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Y0 = 1000
 N0 = 0
 Days = 800000
INVARIANTS Counts Anchors Periodic
