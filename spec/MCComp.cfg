SPECIFICATION Spec
INVARIANT Good
INVARIANT Product
INVARIANT Live
INVARIANT OneEach
VIEW View
CHECK_DEADLOCK FALSE
