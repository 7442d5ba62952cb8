SPECIFICATION Spec
INVARIANT EInv
CHECK_DEADLOCK FALSE
