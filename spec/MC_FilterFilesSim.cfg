SPECIFICATION Spec
CONSTANTS
  MaxSteps = 14
  EmitAt = 0
INVARIANTS Unique HiddenStayHidden GlobSane EmitCases
