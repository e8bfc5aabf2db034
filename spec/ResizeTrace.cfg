SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
