SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
INVARIANTS Together OnlyLastMatters EmitCases
