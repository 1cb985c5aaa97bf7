SPECIFICATION Spec
CONSTANT Fault = "shortnames"
CHECK_DEADLOCK FALSE
INVARIANT SameLeaves
INVARIANT Mirrors
INVARIANT NoMask
INVARIANT Idempotent
