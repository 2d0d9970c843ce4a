SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxUint = 6
INVARIANT TypeOK
PROPERTIES Direction RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
