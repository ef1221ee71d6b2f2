SPECIFICATION Spec
INVARIANT OnlyDeclarations
INVARIANT NeverFromNothing
CHECK_DEADLOCK FALSE
