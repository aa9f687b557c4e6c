SPECIFICATION MCSpec
CONSTANTS MaxLen = 5 Export = FALSE
INVARIANTS Chain Compose DotsIdle
CHECK_DEADLOCK FALSE
