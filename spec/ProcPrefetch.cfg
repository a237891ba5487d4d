SPECIFICATION Fair
CONSTANTS N = 2 MaxB = 2 NS = 1 MaxFault = 1 MaxSet = 2 FreshQueues = TRUE Depth = 0 Recorded = FALSE
INVARIANTS InOrder EndRight Bounded Counts Gone
PROPERTY Progress
CHECK_DEADLOCK FALSE
