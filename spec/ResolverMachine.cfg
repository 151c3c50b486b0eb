SPECIFICATION Spec
INVARIANTS Correct ResultIsFile NotFoundIsFailure StaysRelative Skipped
PROPERTY Terminates
CHECK_DEADLOCK FALSE
