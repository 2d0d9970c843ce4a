SPECIFICATION Spec
CONSTANTS
  What = "files"
  Size = 3
VIEW View
PROPERTIES Merged Loaded Untouched
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
