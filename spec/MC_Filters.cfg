SPECIFICATION Spec
CONSTANTS
  MaxFilters = 3
  Lengths = {0, 2, 7}
INVARIANTS OwnRange EffInside EmitCases
