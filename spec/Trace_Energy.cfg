SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Bad <- EnBad
