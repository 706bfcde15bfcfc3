SPECIFICATION Spec
CONSTANTS Texts = {"A", "wA", "B", ""}
          MaxLen = 3
INVARIANTS Result Truthful Repeat Complete OthersKept BackupIsOld BackedUp
PROPERTY Ends
CHECK_DEADLOCK FALSE
