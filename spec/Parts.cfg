SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT PartsOnce
INVARIANT PartsNeeded
INVARIANT NothingElse
