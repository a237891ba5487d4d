SPECIFICATION Spec
CONSTANTS N = 7 MaxT = 3 MaxB = 4 NS = 2 MaxEx = 3 Depth = 22 Recorded = TRUE
INVARIANTS InOrder Emit
CHECK_DEADLOCK FALSE
