SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitPath
INVARIANT Decodes
INVARIANT Lossless
INVARIANT SameKeys
