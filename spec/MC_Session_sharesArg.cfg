SPECIFICATION Spec
CONSTANTS Fault = "sharesArg"
 MaxCalls = 4
INVARIANTS CallsIndependent ArgsKept ResultsKept RandomKept
CHECK_DEADLOCK FALSE
