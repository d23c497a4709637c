CONSTANTS
  NNodes = 3
  Turns = {0, 28}
  Scales = {1, 2}
  NOps = 1
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
