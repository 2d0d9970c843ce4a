SPECIFICATION Spec
VIEW MCView
CONSTANTS
  MaxSteps = 3
INVARIANT TypeOK
PROPERTIES Monotone Conservation Stuck Promise
ACTION_CONSTRAINT EmitR
CHECK_DEADLOCK FALSE
