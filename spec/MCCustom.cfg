SPECIFICATION Spec
INVARIANT RejectedExactlyIfBad LoadsExactly NamesDistinct DefaultPlaces OwnUrl
PROPERTY Ends
CHECK_DEADLOCK FALSE
