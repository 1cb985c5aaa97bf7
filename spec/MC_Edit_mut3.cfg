SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Bug = "span"
INVARIANTS MarkBlind OnlyTrueValues AsSpecified Removable
