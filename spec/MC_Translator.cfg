SPECIFICATION MCSpec
CONSTANTS MaxQueue = 2
Export = FALSE
Which = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
INVARIANTS InOrder ErrorSound EndSound Settles Listed
PROPERTIES Found Final
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
