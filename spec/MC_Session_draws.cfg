SPECIFICATION Spec
CONSTANTS Fault = "draws"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
