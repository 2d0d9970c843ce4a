SPECIFICATION Spec
VIEW View
PROPERTIES Exact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
