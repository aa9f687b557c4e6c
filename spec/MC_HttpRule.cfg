SPECIFICATION MCSpec
CONSTANTS MaxPatterns = 3 Export = TRUE
INVARIANTS SameAsFlat AllGood Header Exported
CHECK_DEADLOCK FALSE
