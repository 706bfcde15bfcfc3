SPECIFICATION Spec
INVARIANT OthersUntouched NothingWithoutConsent SuccessIsComplete NoDirectoryLost UserFilesOnlyReplaced
PROPERTY Ends
CHECK_DEADLOCK FALSE
