SPECIFICATION GSpec
CONSTANTS
 Space <- FitSpace
 Valid <- FitValid
CHECK_DEADLOCK FALSE
