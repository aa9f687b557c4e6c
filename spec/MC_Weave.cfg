SPECIFICATION MCSpec
CONSTANTS MaxKids = 2 MaxBinds = 2 Export = FALSE
INVARIANTS EachField NothingElse Rejected OrderIdle Exported
CHECK_DEADLOCK FALSE
