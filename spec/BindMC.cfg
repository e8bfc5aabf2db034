SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitPath
INVARIANT OwnFirst
INVARIANT NamesReachKeys
PROPERTY OneKeyOnly
PROPERTY Apart
