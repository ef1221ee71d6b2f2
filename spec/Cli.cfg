SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Truth
INVARIANT Loud
INVARIANT Untouched
INVARIANT Silent
INVARIANT OneWay
PROPERTY Ends
CONSTANT Span = 520
