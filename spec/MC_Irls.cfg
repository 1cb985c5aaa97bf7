SPECIFICATION Spec
INVARIANTS AtZero InRange Falling Redescends KeepsSome
CHECK_DEADLOCK FALSE
CONSTANT Steps = 150
