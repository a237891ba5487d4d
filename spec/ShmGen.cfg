SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3, 4, 5}
  Msgs = {1, 2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
