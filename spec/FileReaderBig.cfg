SPECIFICATION Spec
CONSTANTS
  MaxGroups = 5
  MaxLen = 2
  MaxSaves = 3
INVARIANTS InOrder EndsLast Position TableOfGroup
PROPERTY Answers
CHECK_DEADLOCK FALSE
