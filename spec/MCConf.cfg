SPECIFICATION Spec
CONSTANTS
  What = "files"
  Size = 2
VIEW View
PROPERTIES Kept OneKind Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
