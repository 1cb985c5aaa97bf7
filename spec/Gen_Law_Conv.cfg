SPECIFICATION GSpec
CONSTANTS
 Space <- ConvSpace
 Valid <- ConvValid
CHECK_DEADLOCK FALSE
