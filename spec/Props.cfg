SPECIFICATION Spec
CONSTANT Input <- InputImpl
CONSTANT DefOf <- DefOfImpl
INVARIANT AsksSomething
PROPERTY Stable
PROPERTY LogGrows
PROPERTY NeverOverasked
CHECK_DEADLOCK FALSE
