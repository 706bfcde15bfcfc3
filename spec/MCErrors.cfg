CONSTANTS MaxDepth = 3
          MaxSteps = 7
SPECIFICATION Spec
INVARIANTS TrueOrigin PrintedOnce PrintedIffLeft NothingUnprinted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
