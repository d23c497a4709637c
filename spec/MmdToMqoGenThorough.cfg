CONSTANTS MaxFaces = 3 MaxTargets = 2 Targets = {1, 2, 4, 6, 9}
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
