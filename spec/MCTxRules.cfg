SPECIFICATION Spec
VIEW View
CONSTANTS
  Pairs = {"full"}
PROPERTIES Monotone Safe
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
