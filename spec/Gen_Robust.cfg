SPECIFICATION GSpec
CONSTANTS
 Space <- RobSpace
 Valid <- RobValid
CHECK_DEADLOCK FALSE
