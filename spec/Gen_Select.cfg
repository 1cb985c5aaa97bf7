SPECIFICATION GSpec
CONSTANTS
 Space <- SelSpace
 Valid <- SelValid
CHECK_DEADLOCK FALSE
