SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANTS Agrees NothingSwallowed NoSpuriousFailure CheckedNeverFailedResult FailedUnchanged
PROPERTY Terminates
CHECK_DEADLOCK FALSE
