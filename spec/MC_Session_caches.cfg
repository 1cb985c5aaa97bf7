SPECIFICATION Spec
CONSTANTS Fault = "caches"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
