SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 KINDS = {"so", "soo", "bigi"}
 VALS = {1}
