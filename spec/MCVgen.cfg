SPECIFICATION Spec
INVARIANT OnceEach
INVARIANT Fits
CHECK_DEADLOCK FALSE
