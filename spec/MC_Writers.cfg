SPECIFICATION MCSpec
CONSTANTS MaxEv = 7 MaxBinds = 2 Export = FALSE
INVARIANTS Allowed Balanced EachLeaf OpenedOnce NothingLeft BadIff Exported
CHECK_DEADLOCK FALSE
