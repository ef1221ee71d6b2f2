SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NeverLost
INVARIANT Valid
