SPECIFICATION Spec
CONSTANTS N = 4
          V = 2
INVARIANTS Promise Needed
CHECK_DEADLOCK FALSE
