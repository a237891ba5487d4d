SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxProc = 3 MaxPos = 9 NDir = 2 NWrite = 2 Early = TRUE Own = TRUE
