SPECIFICATION Spec
CONSTANT Len1 = 40
CHECK_DEADLOCK FALSE
