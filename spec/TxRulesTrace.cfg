SPECIFICATION TSpec
CONSTANTS
  OutcomesOf <- Outcomes
  StartOf <- Start
POSTCONDITION TDone
CHECK_DEADLOCK FALSE
