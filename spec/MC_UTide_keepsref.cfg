SPECIFICATION Spec
CONSTANT Fault = "keepsref"
CHECK_DEADLOCK FALSE
INVARIANT AsComposed
INVARIANT Refusals
INVARIANT Attached
INVARIANT Tied
INVARIANT Filtered
INVARIANT Projection
