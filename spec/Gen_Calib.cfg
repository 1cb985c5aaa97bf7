SPECIFICATION GSpec
CONSTANTS
 Space <- CalSpace
 Valid <- CalValid
CHECK_DEADLOCK FALSE
