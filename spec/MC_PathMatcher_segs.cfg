SPECIFICATION MCSpec
CONSTANTS Lits = {97}  PartLits = {97, 99, 42}  MaxSegs = 3  MaxParts = 4  MaxReg = 3
  ReqMs = {71}  Methods = {71}  VerbSet = {0}  Unreg = FALSE  Dups = FALSE  Export = TRUE
INVARIANTS SearchFindsWinner OrderIsTotal Monotone RoundTrip Header Exported
CHECK_DEADLOCK FALSE
