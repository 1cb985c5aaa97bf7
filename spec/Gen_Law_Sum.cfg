SPECIFICATION GSpec
CONSTANTS
 Space <- SumSpace
 Valid <- SumValid
CHECK_DEADLOCK FALSE
