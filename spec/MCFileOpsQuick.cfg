SPECIFICATION Spec
CONSTANTS Keys = {"a", "s"}
INVARIANTS ReachesRequestedState ExactlyRequested ChangeIsTruthful Converges RecoversFromFault DryRunIsPure DryRunPredicts NothingElseTouched MismatchUntouched ContentComplete
PROPERTY Ends
CHECK_DEADLOCK FALSE
