SPECIFICATION GSpec
CONSTANTS
 Space <- IncSpace
 Valid <- IncValid
CHECK_DEADLOCK FALSE
