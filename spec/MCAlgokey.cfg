SPECIFICATION Spec
CONSTANTS
  What = "keys"
  Deep = FALSE
VIEW View
PROPERTIES Harmless Private OneKey Back
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
