SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Bug = "none"
INVARIANTS MarkBlind OnlyTrueValues AsSpecified Removable
