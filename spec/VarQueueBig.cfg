SPECIFICATION Spec
INVARIANTS Fifo Capacity NotForgotten
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS NT = 4 MaxCap = 3 MaxPut = 5 MaxResize = 2 Tell = TRUE All = TRUE Again = TRUE Recorded = FALSE Depth = 0
