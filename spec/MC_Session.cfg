SPECIFICATION Spec
CONSTANTS Fault = "none"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept TablesKept
CHECK_DEADLOCK FALSE
