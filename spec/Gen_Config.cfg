SPECIFICATION GSpec
CONSTANTS
 Space <- ConfSpace
 Valid <- ConfValid
CHECK_DEADLOCK FALSE
