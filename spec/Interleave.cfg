SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxLen = 2 MaxC = 3 Ahead = 2 Fill = TRUE
INVARIANTS RightOrder Complete PerInput All OpenBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
