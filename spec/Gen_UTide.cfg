SPECIFICATION GSpec
CONSTANTS
 Space <- CySpace
 Valid <- CyValid
CHECK_DEADLOCK FALSE
