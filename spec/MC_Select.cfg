SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Bug = "none"
INVARIANTS Once Exactly Counts LongerIsMore
