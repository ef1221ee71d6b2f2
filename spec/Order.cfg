SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Once
INVARIANT After
INVARIANT Stuck
INVARIANT Never
