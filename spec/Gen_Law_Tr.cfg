SPECIFICATION GSpec
CONSTANTS
 Space <- TrSpace
 Valid <- TrValid
CHECK_DEADLOCK FALSE
