SPECIFICATION GSpec
CONSTANTS
 Space <- PtsSpace
 Valid <- PtsValid
CHECK_DEADLOCK FALSE
