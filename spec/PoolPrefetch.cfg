SPECIFICATION Fair
CONSTANTS N = 3 MaxT = 2 MaxB = 2 NS = 1 MaxEx = 2 Depth = 0 Recorded = FALSE
INVARIANTS InOrder Contiguous Bounded NotStuck
PROPERTY Progress
CHECK_DEADLOCK FALSE
