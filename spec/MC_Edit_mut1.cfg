SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Bug = "masktime"
INVARIANTS MarkBlind OnlyTrueValues AsSpecified Removable
