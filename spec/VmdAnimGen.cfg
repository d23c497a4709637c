SPECIFICATION Spec
CONSTANTS
  Rich = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
