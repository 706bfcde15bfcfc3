SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANTS Agrees NothingSwallowed NoSpuriousFailure CheckedNeverFailedResult FailedUnchanged
PROPERTY Terminates
CHECK_DEADLOCK FALSE
