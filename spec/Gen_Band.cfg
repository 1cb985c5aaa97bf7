SPECIFICATION GSpec
CONSTANTS
 Space <- BandSpace
 Valid <- BandValid
CHECK_DEADLOCK FALSE
