SPECIFICATION Spec
CONSTANTS Fault = "sharesTable"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
