SPECIFICATION MCSpec
CONSTANTS MaxSegs = 4 MaxReps = 3 Export = TRUE
INVARIANTS ByPosition Exported
CHECK_DEADLOCK FALSE
