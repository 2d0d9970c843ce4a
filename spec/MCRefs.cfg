SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxList = 3
  What = "live"
PROPERTIES Inverse OwnChain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
