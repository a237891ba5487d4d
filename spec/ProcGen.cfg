SPECIFICATION Spec
CONSTANTS N = 6 MaxB = 3 NS = 2 MaxFault = 2 MaxSet = 4 FreshQueues = TRUE Depth = 14 Recorded = TRUE
INVARIANTS InOrder Emit
CHECK_DEADLOCK FALSE
