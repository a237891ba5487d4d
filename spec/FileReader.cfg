SPECIFICATION Spec
CONSTANTS
  MaxGroups = 4
  MaxLen = 2
  MaxSaves = 2
INVARIANTS InOrder EndsLast Position TableOfGroup
PROPERTY Answers
CHECK_DEADLOCK FALSE
