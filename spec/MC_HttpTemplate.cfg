SPECIFICATION Spec
CONSTANTS MaxLen = 5  Export = TRUE
INVARIANTS Agree WellFormed Exported
CHECK_DEADLOCK FALSE
