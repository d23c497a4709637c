SPECIFICATION Spec
CONSTANTS
  MaxFiles = 2
  MaxPieces = 3
  PieceSizes = {1, 2, 3}
  BufSize = 4
INVARIANTS TypeOK Reported Complete NoFalseError Emit
CHECK_DEADLOCK FALSE
