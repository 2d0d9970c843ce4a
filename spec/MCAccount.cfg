SPECIFICATION Spec
VIEW MCView
CONSTANTS
  MaxLevel = 3
  Unit = 10
INVARIANTS Lifetime Idempotent
PROPERTIES NoStakeOffline NormBound
ACTION_CONSTRAINT EmitOnly
CHECK_DEADLOCK FALSE
