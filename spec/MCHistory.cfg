SPECIFICATION Spec
VIEW View
CONSTANTS
  Cur0 = "V20"
  MaxBlocks = 4
PROPERTIES FoundOut Soon OwnBlock Receipts Honored Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
