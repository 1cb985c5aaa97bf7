SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Bug = "vonly"
INVARIANTS MarkBlind OnlyTrueValues AsSpecified Removable
