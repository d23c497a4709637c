SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Orthogonal ProperPos DetScale Assoc Emit
CHECK_DEADLOCK FALSE
