SPECIFICATION Spec
CONSTANTS MaxN = 16
 Params = 3
 Twice = 1
INVARIANTS VarCos VarSin Uncorrelated Unbiased AllCounted
CHECK_DEADLOCK FALSE
