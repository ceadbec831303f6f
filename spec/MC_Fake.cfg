SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3}
  Alphabet = {1, 2, 3, 4}
  MaxSets = 3
INVARIANTS NeverTooMany Complete EmitCases
