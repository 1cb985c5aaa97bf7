SPECIFICATION Spec
CONSTANTS Cross <- Neg
INVARIANTS Derivation Isotropic Whole Alias Swap Mirror Aligned
CHECK_DEADLOCK FALSE
