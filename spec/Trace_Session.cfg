SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Start <- SesStart
 Step <- SesStep
