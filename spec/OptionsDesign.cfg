SPECIFICATION Spec
CONSTANTS MaxNodes = 5
          Deep = TRUE
          Mine = TRUE
INVARIANTS TypeOK SameOptions Separate
CHECK_DEADLOCK FALSE
