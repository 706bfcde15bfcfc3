CONSTANTS MaxOps = 2
          MaxRemote = 2
SPECIFICATION Spec
INVARIANTS ReachesGoal NeverOverwrites FailedKeeps OtherOriginKept LeftAlone
PROPERTIES MustFailFails Settles SubmodulesFollow SubmodulesKept
CHECK_DEADLOCK FALSE
