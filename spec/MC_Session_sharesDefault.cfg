SPECIFICATION Spec
CONSTANTS Fault = "sharesDefault"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
