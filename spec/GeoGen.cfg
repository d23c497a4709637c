SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Orthogonal ProperPos DetScale Assoc Emit
CHECK_DEADLOCK FALSE
