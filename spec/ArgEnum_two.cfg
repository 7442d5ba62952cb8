SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 2
 KINDS = {"bool", "cp", "int", "uint", "ll", "ull", "flt", "dbl", "ld", "ptr", "sv", "so", "soo", "edge", "big", "bigi", "thr", "thri", "span", "ti"}
 VALS = {1}
