SPECIFICATION Spec
INVARIANTS Fifo Emit
CHECK_DEADLOCK FALSE
CONSTANTS NT = 4 MaxCap = 3 MaxPut = 14 MaxResize = 4 Tell = TRUE All = TRUE Again = TRUE Recorded = TRUE Depth = 26
