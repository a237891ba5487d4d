SPECIFICATION Fair
CONSTANTS N = 4 MaxB = 2 NS = 1 Depth = 0 Recorded = FALSE
INVARIANTS InOrder EndRight Bounded Exclusive Consistent NotStuck Gone
PROPERTY Progress
CHECK_DEADLOCK FALSE
