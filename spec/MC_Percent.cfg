SPECIFICATION Spec
CONSTANTS MaxLen = 4  Export = TRUE
INVARIANTS ScanAgrees Reported Layered Exported
CHECK_DEADLOCK FALSE
