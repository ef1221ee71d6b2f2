SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT HeldIsExplained
INVARIANT HeldIsValue
INVARIANT OthersKeep
INVARIANT WholeIsResult
INVARIANT ReuseWorks
PROPERTY Monotonic
