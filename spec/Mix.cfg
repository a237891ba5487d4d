SPECIFICATION Spec
CONSTANTS MaxW = 4
 MaxC = 4
 MaxLen = 3
INVARIANTS InOrder Proportional NoRepeat
CHECK_DEADLOCK FALSE
