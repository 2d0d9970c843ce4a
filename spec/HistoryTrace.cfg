SPECIFICATION TSpec
CONSTANTS
  OutcomesOf <- Outcomes3
  StartOf <- Start3
POSTCONDITION TDone
CHECK_DEADLOCK FALSE
