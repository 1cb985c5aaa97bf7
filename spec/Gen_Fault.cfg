SPECIFICATION GSpec
CONSTANTS
 Space <- FauSpace
 Valid <- FauValid
CHECK_DEADLOCK FALSE
