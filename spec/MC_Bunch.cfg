SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Mut = "no"
INVARIANTS Dictionary FailuresChangeNothing NoNewKeys OnlyNone StrictRefuses Takes ShowsAll
CHECK_DEADLOCK FALSE
