SPECIFICATION Spec
VIEW HView
CONSTANTS
  Cur0 = "V20"
  Proposals = {"V21", "V22", "DeprecatedV3"}
  MaxDelay = 4
  MaxRound = 11
INVARIANTS Bookkeeping Agreed
PROPERTIES SwitchRule DropRule
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
