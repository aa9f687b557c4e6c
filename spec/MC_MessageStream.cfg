SPECIFICATION MCSpec
CONSTANTS MaxMsgs = 3 MsgSizes = {0, 1, 2} Export = TRUE
PROPERTY Refines
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
