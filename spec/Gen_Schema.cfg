SPECIFICATION GSpec
CONSTANTS
 Space <- SchSpace
 Valid <- SchValid
CHECK_DEADLOCK FALSE
