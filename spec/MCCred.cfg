SPECIFICATION Spec
CONSTANTS
  What = "select"
  Size = 4
VIEW View
INVARIANTS Apart
PROPERTIES Agrees Monotone Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
