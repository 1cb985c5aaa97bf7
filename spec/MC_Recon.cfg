SPECIFICATION Spec
INVARIANTS NamedExactly ThresholdsIrrelevantWhenNamed Monotone ZeroIsAll NoCINoSNR Boundary
CHECK_DEADLOCK FALSE
