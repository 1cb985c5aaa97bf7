SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Bug = "keepref"
INVARIANTS Once Exactly Counts LongerIsMore
