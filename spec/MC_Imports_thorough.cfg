SPECIFICATION Spec
CONSTANTS
  MaxAsk = 3
INVARIANTS DoubleAfterAnyImport ConstantsDouble EmitCases
PROPERTIES NeverSwitchedOff
