SPECIFICATION Spec
CONSTANTS
  MaxAdd = 3
  MaxIO = 2
INVARIANTS StoredStable StoredNamesUnique RenamingAllowed Emit
PROPERTIES LoadFaithful SavePreserves
CHECK_DEADLOCK FALSE
