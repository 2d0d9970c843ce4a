SPECIFICATION Spec
CONSTANTS
  Top = 6
VIEW View
PROPERTIES Rounding Undone Split
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
