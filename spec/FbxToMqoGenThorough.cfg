CONSTANTS
  NModels = 3
  Turns = {0, 1, 28}
  Scales = {1, 2, 3}
  NClusters = 2
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
