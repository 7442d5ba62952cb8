SPECIFICATION Spec
CONSTANTS NS = 2
 ML = 3
 VALS = {1, 2}
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
