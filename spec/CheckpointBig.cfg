SPECIFICATION Spec
INVARIANTS TypeOK Faithful Restored
CHECK_DEADLOCK FALSE
CONSTANTS MaxProc = 2 MaxPos = 2 NDir = 2 NWrite = 1 Early = TRUE Own = TRUE
