SPECIFICATION MCSpec
CONSTANTS MaxLooks = 3 Export = TRUE
INVARIANTS Repeatable Untouched Replaced Header Exported
CHECK_DEADLOCK FALSE
