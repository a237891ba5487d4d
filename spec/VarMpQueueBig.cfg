SPECIFICATION Spec
INVARIANTS Fifo Places Capacity PendingRight
CHECK_DEADLOCK FALSE
CONSTANTS NT = 4 MaxCap = 4 MaxPut = 6 MaxResize = 3 Cancel = TRUE
