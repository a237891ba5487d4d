SPECIFICATION Fair
CONSTANTS
  N = 3
  MaxB = 2
  MaxBlk = 4
  MaxSet = 1
  MaxPend = 1
  Discard = TRUE
  Late = TRUE
  Once = TRUE
  Unfinished = TRUE
INVARIANTS Valid ReleasedOnce SourceKeeps Clean Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
