SPECIFICATION Spec
CONSTANTS MaxN = 24
 MaxK = 6
INVARIANTS EvenSplitOK StridesOK NestedOK
CHECK_DEADLOCK FALSE
