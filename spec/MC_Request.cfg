SPECIFICATION MCSpec
CONSTANTS MaxLen = 6 Export = TRUE
INVARIANTS NothingLost VerbIsOne VerbNotMissed NoTrailing Exported Header
CHECK_DEADLOCK FALSE
