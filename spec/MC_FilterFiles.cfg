SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  EmitAt = 2
INVARIANTS Unique HiddenStayHidden GlobSane EmitCases
