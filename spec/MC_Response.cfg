SPECIFICATION MCSpec
CONSTANTS MaxFrames = 2
Sizes = {0, 2}
Export = FALSE
INVARIANTS Wellformed ErrorSound EndSound Reaches
PROPERTIES Found Final
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
