SPECIFICATION Spec
CONSTANTS N = 3
          V = 2
INVARIANTS Promise Needed
CHECK_DEADLOCK FALSE
