SPECIFICATION Spec
CONSTANTS
  Rich = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
