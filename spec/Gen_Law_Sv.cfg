SPECIFICATION GSpec
CONSTANTS
 Space <- SvSpace
 Valid <- SvValid
CHECK_DEADLOCK FALSE
