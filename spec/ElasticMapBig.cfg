SPECIFICATION Spec
CONSTANTS MaxN = 13 MaxB = 8 MaxP = 4 MaxReshard = 3 Together = TRUE
INVARIANTS ExactlyOnce Prefix SameEnd
CHECK_DEADLOCK FALSE
