SPECIFICATION MCSpec
CONSTANTS MaxLen = 5 Export = TRUE
INVARIANTS Agree Exported
CHECK_DEADLOCK FALSE
