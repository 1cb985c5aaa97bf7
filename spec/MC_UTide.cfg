SPECIFICATION Spec
CONSTANT Fault = "none"
CHECK_DEADLOCK FALSE
INVARIANT AsComposed
INVARIANT Refusals
INVARIANT Attached
INVARIANT Tied
INVARIANT Filtered
INVARIANT Projection
