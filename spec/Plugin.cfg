SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
 Independent
 Once
