CONSTANTS
  NNodes = 3
  Turns = {0, 1, 28}
  Scales = {1, 2}
  NOps = 2
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
