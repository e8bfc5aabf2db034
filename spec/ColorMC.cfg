SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitPath
INVARIANT RoundTrip
INVARIANT Written
PROPERTY Grows
