SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 NN = 2
 MAXX = 3
 VALS = {1}
 LISTS = 3
 DYN = {}
 ST = {1}
 REF = {3}
 MV = {1, 2}
