SPECIFICATION GSpec
CONSTANTS
 Space <- PortSpace
 Valid <- PortValid
CHECK_DEADLOCK FALSE
