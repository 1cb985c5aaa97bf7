SPECIFICATION Spec
CONSTANT Fault = "keepdims"
CHECK_DEADLOCK FALSE
INVARIANT SameLeaves
INVARIANT Mirrors
INVARIANT NoMask
INVARIANT Idempotent
