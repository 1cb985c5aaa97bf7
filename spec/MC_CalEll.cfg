SPECIFICATION Spec
CONSTANTS Cross = 1
INVARIANTS Derivation Isotropic Whole Alias Swap Mirror Aligned
CHECK_DEADLOCK FALSE
