SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitPath
INVARIANT Directed
PROPERTY Keeps
PROPERTY Once
PROPERTY OneField
PROPERTY SettingsStay
PROPERTY SameOutput
PROPERTY InOrder
