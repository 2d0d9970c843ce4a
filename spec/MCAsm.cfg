SPECIFICATION Spec
VIEW View
CONSTANTS
  Cur0 = "V20"
  MaxRound = 9
PROPERTIES Acceptable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
