SPECIFICATION Spec
CONSTANTS
  Step = 1
  AgeLo = 0
  AgeHi = 1200
INVARIANTS SurvivorsAreAFraction RemnantsAreAFraction EmitCases
PROPERTY NeverRegained
