SPECIFICATION Spec
CHECK_DEADLOCK TRUE
INVARIANT NoRace DisplayObeys NothingLost EditsCount
PROPERTY Atomic NothingLate Ends Delivered
ACTION_CONSTRAINT EmitPath
