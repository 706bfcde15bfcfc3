SPECIFICATION Spec
CONSTANTS
 Comments = {""}
 WithB = FALSE
INVARIANTS ReachesState OnlyPossible Truthful IsContained Recovers Converges Consistent
PROPERTY Ends
CHECK_DEADLOCK FALSE
