SPECIFICATION Spec
INVARIANTS NeverStale SolvedRight Emit
CHECK_DEADLOCK TRUE
