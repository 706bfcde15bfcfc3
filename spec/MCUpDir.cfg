SPECIFICATION Spec
INVARIANTS Mirrors Unrelated MismatchUntouched Fails Truthful Recovers Converges Tree
PROPERTY Ends
CHECK_DEADLOCK FALSE
