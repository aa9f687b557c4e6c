SPECIFICATION MCSpec
CONSTANTS MaxFrames = 2 Sizes = {0, 1, 2} Breaks = {0, 3} Export = TRUE
INVARIANTS InOrder Lazy ErrorSound BrokenOff
PROPERTIES NothingMissed ErrorFound Sticky BrokenEnds
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
