CONSTANTS Loops = {1, 2, 3, 4} Uvs = {0, 2} NFaces = 3
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
