SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EqualFactorsScale ScalarLag SizesScale AxesCombine
