SPECIFICATION GSpec
CONSTANTS
 Space <- IrlsSpace
 Valid <- IrlsValid
CHECK_DEADLOCK FALSE
