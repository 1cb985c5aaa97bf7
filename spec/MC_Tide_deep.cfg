SPECIFICATION Spec
INVARIANTS VRate AtRef NodOk Modulus Band
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
