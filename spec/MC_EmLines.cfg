SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
INVARIANTS Together OnlyLastMatters EmitCases
