SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitPath
INVARIANT Spelled
INVARIANT Agrees
INVARIANT NotClosed
