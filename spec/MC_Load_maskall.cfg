SPECIFICATION Spec
CONSTANT Fault = "maskall"
CHECK_DEADLOCK FALSE
INVARIANT SameLeaves
INVARIANT Mirrors
INVARIANT NoMask
INVARIANT Idempotent
