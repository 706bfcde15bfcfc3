SPECIFICATION Spec
CONSTANTS
 Comments = {"", "c"}
 WithB = TRUE
INVARIANTS ReachesState OnlyPossible Truthful IsContained Recovers Converges Consistent

CHECK_DEADLOCK FALSE
