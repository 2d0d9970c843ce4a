SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxLen_ = 4
  MaxProof_ = 4
PROPERTIES Binding Sound EmptySound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
