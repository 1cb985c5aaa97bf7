SPECIFICATION Spec
CONSTANT Fault = "none"
CHECK_DEADLOCK FALSE
INVARIANT SameLeaves
INVARIANT Mirrors
INVARIANT NoMask
INVARIANT Idempotent
