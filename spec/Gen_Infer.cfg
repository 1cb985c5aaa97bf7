SPECIFICATION GSpec
CONSTANTS
 Space <- InfSpace
 Valid <- InfValid
CHECK_DEADLOCK FALSE
