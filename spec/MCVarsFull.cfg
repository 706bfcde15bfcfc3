CONSTANTS Names = {"x", "y", "name", "_p", "defaults"}
          MaxDepth = 3
          MaxSteps = 6
SPECIFICATION Spec
INVARIANTS HostWins OnlyRunning NeverInternal NeverModule CallerKept
CHECK_DEADLOCK FALSE
