SPECIFICATION Spec
CONSTANTS
  What = "rates"
  MaxRound = 3
VIEW View
PROPERTIES Sound Accepted Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
