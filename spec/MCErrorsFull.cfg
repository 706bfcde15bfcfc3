CONSTANTS MaxDepth = 4
          MaxSteps = 9
SPECIFICATION Spec
INVARIANTS TrueOrigin PrintedOnce PrintedIffLeft NothingUnprinted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
