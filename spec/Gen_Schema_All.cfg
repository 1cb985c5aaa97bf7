SPECIFICATION GSpec
CONSTANTS
 Space <- SmallSpace
 Valid <- SmallValid
CHECK_DEADLOCK FALSE
