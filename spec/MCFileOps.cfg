SPECIFICATION Spec
CONSTANTS Keys = {"a", "s/x", "s"}
INVARIANTS ReachesRequestedState ExactlyRequested ChangeIsTruthful Converges RecoversFromFault DryRunIsPure DryRunPredicts NothingElseTouched MismatchUntouched ContentComplete
PROPERTY Ends
CHECK_DEADLOCK FALSE
