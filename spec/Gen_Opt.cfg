SPECIFICATION GSpec
CONSTANTS
 Space <- OptSpace
 Valid <- OptValid
CHECK_DEADLOCK FALSE
