SPECIFICATION Spec
CONSTANTS N = 6 MaxB = 3 NS = 2 Depth = 18 Recorded = TRUE
INVARIANTS InOrder Emit
CHECK_DEADLOCK FALSE
