SPECIFICATION Spec
INVARIANT Good
VIEW View
CHECK_DEADLOCK FALSE
