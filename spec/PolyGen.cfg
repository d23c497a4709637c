SPECIFICATION Spec
CONSTANTS
  GridX = 2
  GridY = 2
  MaxN = 6
  ClipN = 4
INVARIANTS ChainKept AlwaysEar Finished Emit
CHECK_DEADLOCK FALSE
