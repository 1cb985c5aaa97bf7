SPECIFICATION GSpec
CONSTANTS
 Space <- TimeSpace
 Valid <- TimeValid
CHECK_DEADLOCK FALSE
