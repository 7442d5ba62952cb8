SPECIFICATION Spec
INVARIANT TInv
CHECK_DEADLOCK FALSE
