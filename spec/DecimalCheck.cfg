SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Shape Laws Nearness
CHECK_DEADLOCK FALSE
