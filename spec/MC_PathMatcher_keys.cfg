SPECIFICATION MCSpec
CONSTANTS Lits = {97}  PartLits = {97, 99}  MaxSegs = 1  MaxParts = 2  MaxReg = 3
  ReqMs = {71, 42, 120}  Methods = {71, 42}  VerbSet = {0, 118, 119}  Unreg = FALSE  Dups = TRUE  Export = TRUE
INVARIANTS SearchFindsWinner OrderIsTotal RoundTrip Header Exported
CHECK_DEADLOCK FALSE
