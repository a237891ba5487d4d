SPECIFICATION Spec
CONSTANTS MaxS = 3 MaxLen = 2 MaxP = 3 MaxC = 2 MarkEnded = TRUE
INVARIANTS ExactlyOnce AllRead Partition Open
CHECK_DEADLOCK FALSE
