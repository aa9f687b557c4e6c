SPECIFICATION MCSpec
CONSTANTS
  Wires <- SomeWires
  Cuts = {3, 5}
  Export = TRUE
INVARIANTS OwnA OwnB
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
