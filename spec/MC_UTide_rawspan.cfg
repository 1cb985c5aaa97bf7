SPECIFICATION Spec
CONSTANT Fault = "rawspan"
CHECK_DEADLOCK FALSE
INVARIANT AsComposed
INVARIANT Refusals
INVARIANT Attached
INVARIANT Tied
INVARIANT Filtered
INVARIANT Projection
