SPECIFICATION GSpec
CONSTANTS
 Space <- OrdSpace
 Valid <- OrdValid
CHECK_DEADLOCK FALSE
