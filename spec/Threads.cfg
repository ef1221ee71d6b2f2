SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Solo
INVARIANT Progress
INVARIANT Steady
