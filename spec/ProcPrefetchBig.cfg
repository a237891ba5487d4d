SPECIFICATION Fair
CONSTANTS N = 3 MaxB = 2 NS = 1 MaxFault = 2 MaxSet = 2 FreshQueues = TRUE Depth = 0 Recorded = FALSE
INVARIANTS InOrder EndRight Bounded Counts Gone
PROPERTY Progress
CHECK_DEADLOCK FALSE
