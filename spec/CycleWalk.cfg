SPECIFICATION Spec
CONSTANT MaxB = 6
INVARIANTS Ends Injective InRange Onto
CHECK_DEADLOCK FALSE
