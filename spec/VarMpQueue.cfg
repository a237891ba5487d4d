SPECIFICATION Spec
INVARIANTS Fifo Places Capacity PendingRight
CHECK_DEADLOCK FALSE
CONSTANTS NT = 3 MaxCap = 3 MaxPut = 4 MaxResize = 3 Cancel = TRUE
