SPECIFICATION Spec
VIEW View
CONSTANTS
  Gens = 1
  Top = 3
  What = "one"
INVARIANTS NoStale OneCopy Unique
PROPERTIES Useful Forward Durable Only Retained Spent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
