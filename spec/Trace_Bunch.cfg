SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Start <- BunchStart
 Step <- BunchStep
