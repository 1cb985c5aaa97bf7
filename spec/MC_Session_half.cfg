SPECIFICATION Spec
CONSTANTS Fault = "half"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
