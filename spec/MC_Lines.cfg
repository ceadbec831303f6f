SPECIFICATION Spec
CONSTANTS
  MaxEdits = 3
INVARIANTS Orthogonal QuadraticHasNoLine EmitCases
PROPERTY Effects
