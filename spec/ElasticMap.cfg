SPECIFICATION Spec
CONSTANTS MaxN = 9 MaxB = 6 MaxP = 3 MaxReshard = 2 Together = TRUE
INVARIANTS ExactlyOnce Prefix SameEnd
CHECK_DEADLOCK FALSE
