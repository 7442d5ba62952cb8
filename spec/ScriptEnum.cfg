SPECIFICATION Spec
INVARIANT EInv
INVARIANT Moves
PROPERTY StepProp
CHECK_DEADLOCK FALSE
