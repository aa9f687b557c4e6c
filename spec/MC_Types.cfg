SPECIFICATION MCSpec
CONSTANTS MaxAsk = 2 Export = TRUE
INVARIANTS OneAtMost Same EachFound Exported
CHECK_DEADLOCK FALSE
