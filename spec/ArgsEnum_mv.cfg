SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 NN = 1
 MAXX = 2
 VALS = {1, 2}
 LISTS = 1
 DYN = {1, 2}
 ST = {}
 REF = {3}
 MV = {1, 2}
