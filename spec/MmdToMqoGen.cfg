CONSTANTS MaxFaces = 2 MaxTargets = 2 Targets = {1, 4, 6, 9}
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
