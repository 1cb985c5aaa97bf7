SPECIFICATION Spec
INVARIANTS Power Product Local Bins
CHECK_DEADLOCK FALSE
CONSTANTS
 Mutant = ""
 N = 160
 Q = 4
