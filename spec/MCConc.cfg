SPECIFICATION Spec
INVARIANTS CacheFresh NothingLost Released Emit
CHECK_DEADLOCK TRUE
