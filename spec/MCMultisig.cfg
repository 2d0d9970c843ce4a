SPECIFICATION Spec
VIEW View
CONSTANTS
  What = "verify"
  Size = 3
INVARIANTS AnyOrder Injective
PROPERTIES Sound Exact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
