SPECIFICATION Spec
CONSTANTS HostNames = {"h1", "h2", "h3"}
          MaxSel = 3
INVARIANTS AtMostOneOpen AllClosedAtEnd UnknownTouchesNothing OncePerHost OnlySelected StopsAtFailure SuccessMeansAll FailureIffSomethingFailed
PROPERTY Ends
CHECK_DEADLOCK FALSE
