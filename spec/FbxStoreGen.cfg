SPECIFICATION GSpec
CONSTANTS MaxOps = 6
INVARIANTS ParsesBack Emit
CHECK_DEADLOCK FALSE
