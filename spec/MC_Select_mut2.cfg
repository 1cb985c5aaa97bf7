SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Bug = "dupref"
INVARIANTS Once Exactly Counts LongerIsMore
