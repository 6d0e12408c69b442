SPECIFICATION Spec
INVARIANTS OrderFree Gated Reached Progress
CHECK_DEADLOCK TRUE
