SPECIFICATION GSpec
CONSTANTS
 Space <- SpectrumSpace
 Valid <- SpectrumValid
CHECK_DEADLOCK FALSE
