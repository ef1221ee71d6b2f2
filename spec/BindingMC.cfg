SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Anywhere
INVARIANT FalseIsOff
INVARIANT Effect
INVARIANT Scoped
