SPECIFICATION Fair
CONSTANTS
  N = 4
  MaxB = 2
  MaxBlk = 7
  MaxSet = 2
  MaxPend = 2
  Discard = TRUE
  Late = TRUE
  Once = TRUE
  Unfinished = TRUE
INVARIANTS Valid ReleasedOnce SourceKeeps Clean Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
