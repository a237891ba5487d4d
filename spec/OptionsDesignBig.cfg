SPECIFICATION Spec
CONSTANTS MaxNodes = 6
          Deep = TRUE
          Mine = TRUE
INVARIANTS TypeOK SameOptions Separate
CHECK_DEADLOCK FALSE
