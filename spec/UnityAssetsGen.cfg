SPECIFICATION Spec
CONSTANTS
  MaxEntries = 3
  MaxOps = 3
INVARIANTS NothingOutside NothingLeft RightAssets OpensHonest Emit
CHECK_DEADLOCK FALSE
