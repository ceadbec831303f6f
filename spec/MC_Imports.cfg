SPECIFICATION Spec
CONSTANTS
  MaxAsk = 2
INVARIANTS DoubleAfterAnyImport ConstantsDouble EmitCases
PROPERTIES NeverSwitchedOff
