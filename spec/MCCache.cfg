SPECIFICATION Spec
INVARIANTS NeverStale SolvedRight
CHECK_DEADLOCK TRUE
