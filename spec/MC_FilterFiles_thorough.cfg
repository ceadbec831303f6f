SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  EmitAt = 3
INVARIANTS Unique HiddenStayHidden GlobSane EmitCases
