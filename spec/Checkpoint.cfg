SPECIFICATION Spec
INVARIANTS TypeOK Faithful Restored
CHECK_DEADLOCK FALSE
CONSTANTS MaxProc = 2 MaxPos = 2 NDir = 1 NWrite = 2 Early = TRUE Own = TRUE
