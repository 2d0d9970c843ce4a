SPECIFICATION TSpec
CONSTANTS
  OutcomesOf <- BOutcomes
  StartOf <- BStart
POSTCONDITION TDone
CHECK_DEADLOCK FALSE
