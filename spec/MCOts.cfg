SPECIFICATION Spec
VIEW View
CONSTANTS
  Batches = 2
  Dil = 2
  Copies = FALSE
PROPERTIES Exactly Copied Apart Unforgeable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
