SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Shape Laws Nearness
CHECK_DEADLOCK FALSE
