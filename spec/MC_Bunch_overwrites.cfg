SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Mut = "overwrites"
INVARIANTS Dictionary FailuresChangeNothing NoNewKeys OnlyNone StrictRefuses Takes ShowsAll
CHECK_DEADLOCK FALSE
