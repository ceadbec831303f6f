SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Vers = {1, 2}
  MaxBatch = 3
INVARIANTS SingleLevel TwoLevels EmitCases
