SPECIFICATION Spec
INVARIANT Good
CHECK_DEADLOCK FALSE
VIEW View
