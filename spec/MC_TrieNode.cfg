SPECIFICATION MCSpec
CONSTANTS MaxIns = 2  Export = TRUE
INVARIANTS SearchFindsWinner ClonesAlike Header Exported
PROPERTIES Independent
CHECK_DEADLOCK FALSE
