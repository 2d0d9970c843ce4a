SPECIFICATION Spec
VIEW View
CONSTANTS
  Length = 3
PROPERTIES Exactly Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
