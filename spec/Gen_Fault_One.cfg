SPECIFICATION GSpec
CONSTANTS
 Space <- One
 Valid <- OneValid
CHECK_DEADLOCK FALSE
