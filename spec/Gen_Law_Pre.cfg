SPECIFICATION GSpec
CONSTANTS
 Space <- PreSpace
 Valid <- PreValid
CHECK_DEADLOCK FALSE
