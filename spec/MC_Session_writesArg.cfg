SPECIFICATION Spec
CONSTANTS Fault = "writesArg"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
