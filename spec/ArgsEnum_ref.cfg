SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 NN = 1
 MAXX = 1
 VALS = {1}
 LISTS = 1
 DYN = {1}
 ST = {1}
 REF = {2, 3}
 MV = {}
