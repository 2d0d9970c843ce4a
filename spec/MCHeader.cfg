SPECIFICATION Spec
VIEW FullView
PROPERTIES Extends Refused
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
