SPECIFICATION Spec
CONSTANTS MaxLen = 4 Export = FALSE
INVARIANTS Completable Reads Grammar Exported
CHECK_DEADLOCK FALSE
