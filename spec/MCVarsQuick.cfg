CONSTANTS Names = {"x", "y", "name", "_p", "defaults"}
          MaxDepth = 2
          MaxSteps = 4
SPECIFICATION Spec
INVARIANTS HostWins OnlyRunning NeverInternal NeverModule CallerKept
CHECK_DEADLOCK FALSE
