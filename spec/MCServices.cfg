SPECIFICATION Spec
INVARIANTS Reaches Truthful Needed InvalidUntouched Fails Converges
PROPERTY Ends
CHECK_DEADLOCK FALSE
