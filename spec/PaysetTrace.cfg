SPECIFICATION TSpec
CONSTANTS
  OutcomesOf <- Outcomes2
  StartOf <- Start
POSTCONDITION TDone
CHECK_DEADLOCK FALSE
