SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitPath
INVARIANT NothingLost
INVARIANT Adds
INVARIANT Shown
INVARIANT Atomic
INVARIANT Back
PROPERTY Local
PROPERTY OneOnly
