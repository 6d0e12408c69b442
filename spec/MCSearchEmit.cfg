SPECIFICATION Spec
INVARIANTS OrderFree Gated Reached Progress Emit
CHECK_DEADLOCK TRUE
