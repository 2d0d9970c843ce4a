SPECIFICATION Spec
VIEW View
INVARIANT PrefixFree
PROPERTY NoForgery
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
