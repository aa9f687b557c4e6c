SPECIFICATION MCSpec
CONSTANTS MaxOps = 5 Which = {1,2,3,4,5,6} Export = FALSE
INVARIANTS InOrder Found Sound OnlyFirst Once Exported
CHECK_DEADLOCK FALSE
