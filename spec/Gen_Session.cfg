SPECIFICATION Spec
CONSTANTS Pool = 64
 Steps = 16
CHECK_DEADLOCK FALSE
