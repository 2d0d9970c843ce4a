SPECIFICATION Spec
CONSTANTS
  What = "pairs"
  Masks = {1}
VIEW View
PROPERTIES Genuine Unique
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
