SPECIFICATION Spec
INVARIANTS AddOk SubOk MulOk DivOk OrdOk BzOrd Dist QuoRem Circle AddAngle Root
CHECK_DEADLOCK FALSE
