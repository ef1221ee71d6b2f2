SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Completable
INVARIANT Layout
INVARIANT Inside
INVARIANT Consistent
