SPECIFICATION Spec
INVARIANT TInv
PROPERTY TFrame
CHECK_DEADLOCK FALSE
