SPECIFICATION TSpec
CONSTANTS HostNames = {"h1"}
          MaxSel = 1
CHECK_DEADLOCK FALSE
