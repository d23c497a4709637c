CONSTANTS
  NNodes = 3
  Turns = {0, 1, 28}
  Scales = {1, 2, 3}
  Modes = {4, 5, 6, 1, 0}
  NPrims = 2
  NSkins = 2
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
