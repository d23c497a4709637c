SPECIFICATION Spec
CONSTANTS
  NB = 2
  NA = 3
  Rich = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
