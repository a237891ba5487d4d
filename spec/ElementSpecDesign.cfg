SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Sizes = {1, 2, 3}
  Depth = 3
INVARIANTS Describes StatesItself
CHECK_DEADLOCK FALSE
