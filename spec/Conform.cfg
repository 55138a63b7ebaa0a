SPECIFICATION Spec
CONSTANT Input <- InputImpl
CONSTANT DefOf <- DefOfImpl
INVARIANT Inside
CHECK_DEADLOCK FALSE
