SPECIFICATION Spec
CONSTANTS
  What = "singles"
  Bases = {0, 1, 2}
VIEW View
PROPERTIES Signed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
