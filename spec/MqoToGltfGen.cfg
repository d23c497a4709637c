CONSTANTS
  Loops = {1, 2, 3, 4, 5, 9}
  Uvs = {0, 2}
  Ns = {0, 1, 2}
  NFaces = 2
  NObjs = 4
  Depths = {0, 1, 2, 3}
  NBones = 6
  Wts = {50, 100, 200, 300, 400, 450}
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
