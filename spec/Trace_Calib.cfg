SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Start <- CalStart
 Step <- CalStep
