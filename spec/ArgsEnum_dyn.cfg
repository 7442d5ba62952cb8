SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 2
 NN = 2
 MAXX = 3
 VALS = {1, 2}
 LISTS = 2
 DYN = {1}
 ST = {}
 REF = {2}
 MV = {}
