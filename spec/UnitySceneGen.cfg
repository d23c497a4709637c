SPECIFICATION Spec
CONSTANTS
  NB = 2
  NA = 2
  Rich = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
