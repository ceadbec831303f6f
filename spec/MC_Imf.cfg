SPECIFICATION Spec
CONSTANTS
  Step = 10
  AgeLo = 0
  AgeHi = 1050
INVARIANTS SurvivorsAreAFraction RemnantsAreAFraction EmitCases
PROPERTY NeverRegained
