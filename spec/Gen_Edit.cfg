SPECIFICATION GSpec
CONSTANTS
 Space <- EdSpace
 Valid <- EdValid
CHECK_DEADLOCK FALSE
