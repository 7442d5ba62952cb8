SPECIFICATION Spec
INVARIANT TInv
PROPERTY StepProp
CHECK_DEADLOCK FALSE
