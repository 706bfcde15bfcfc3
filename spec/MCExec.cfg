SPECIFICATION Spec
INVARIANTS RunsAtMostOnce NeverRunsWithOtherSettings RunsIffPossible ErrorIffNotRun RaisesIffChecked NoForeignGroups
PROPERTY Ends
CHECK_DEADLOCK FALSE
