CONSTANTS MaxHost = 3
          MaxUser = 2
SPECIFICATION Spec
INVARIANTS ScannerAgrees RoundTrip NameIsHost StartsOnlyTarget NothingBeforeNaming
CHECK_DEADLOCK FALSE
