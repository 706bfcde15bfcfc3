SPECIFICATION Spec
INVARIANTS Reaches Truthful Contained Recovers Converges
PROPERTY Ends
CHECK_DEADLOCK FALSE
