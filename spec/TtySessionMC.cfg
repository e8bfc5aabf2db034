SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitPath
INVARIANT AllLines
INVARIANT Reassembled
