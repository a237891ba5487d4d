SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxLen = 3 MaxC = 4 Ahead = 2 Fill = TRUE
INVARIANTS RightOrder Complete PerInput All OpenBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
