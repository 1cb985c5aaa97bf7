SPECIFICATION Spec
CONSTANTS Fault = "writesTable"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
