SPECIFICATION Spec
CONSTANTS
  What = "text"
  Bases = 1
  Alts = 4
VIEW View
PROPERTIES Strict Lossless
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
