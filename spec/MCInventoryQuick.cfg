SPECIFICATION SpecQuick
INVARIANT OrderRespected AllFirst ExactlyMembers Isolation HostWins Responsible ConflictStatic Unambiguous RejectedEarly Accepts
PROPERTY Terminates
CHECK_DEADLOCK FALSE
