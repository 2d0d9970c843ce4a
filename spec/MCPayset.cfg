SPECIFICATION Spec
VIEW View
CONSTANTS
  What = "commit"
  MaxGroup = 3
  MaxSplit = 6
PROPERTIES GroupsFit RoundTrip OwnChain Unique Binding OwnPlace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
