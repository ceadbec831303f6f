SPECIFICATION Spec
CONSTANTS
  MaxSteps = 40
  EmitAt = 0
INVARIANTS Unique HiddenStayHidden GlobSane EmitCases
