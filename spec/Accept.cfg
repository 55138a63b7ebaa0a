SPECIFICATION Spec
INVARIANT Sound
INVARIANT SyntaxFree
INVARIANT OrdersAlone
CHECK_DEADLOCK FALSE
