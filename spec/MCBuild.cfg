SPECIFICATION Spec
INVARIANTS Good OneNode OneIndex Held Closed FlagsKept
VIEW View
CHECK_DEADLOCK FALSE
