SPECIFICATION Spec
CONSTANTS
  MaxSections = 4
  MaxCount = 3
  ElemSize = 3
INVARIANTS Sound NeverPartial Emit
CHECK_DEADLOCK FALSE
