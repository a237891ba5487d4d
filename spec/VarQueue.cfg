SPECIFICATION Fair
INVARIANTS Fifo Capacity NotForgotten
PROPERTY Progress
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS NT = 3 MaxCap = 3 MaxPut = 4 MaxResize = 2 Tell = TRUE All = TRUE Again = TRUE Recorded = FALSE Depth = 0
