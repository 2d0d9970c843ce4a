SPECIFICATION Spec
VIEW View
CONSTANTS
  Big_ = FALSE
INVARIANT OneLength
PROPERTIES Refused NoLeak
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
