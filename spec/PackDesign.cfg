SPECIFICATION Spec
CONSTANTS
  MaxEls = 3
  MaxLen = 4
  Caps = {2, 3}
  Bins = {1, 2}
INVARIANTS RowsOK BinsOK CtsOK NoPadding Full
CHECK_DEADLOCK FALSE
