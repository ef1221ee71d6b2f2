SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT AcceptedIsJson
INVARIANT PrefixRejected
INVARIANT ErrorIsInside
INVARIANT JsonHasNoFormError
PROPERTY SkipKeeps
