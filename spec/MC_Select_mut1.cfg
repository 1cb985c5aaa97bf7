SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Bug = "tie"
INVARIANTS Once Exactly Counts LongerIsMore
