CONSTANTS Loops = {1, 2, 3, 4, 6} Uvs = {0, 1, 2} NFaces = 2
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
