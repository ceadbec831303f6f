SPECIFICATION Spec
CONSTANTS
  Kind = "mzr"
  Values = {"-150", "-9", "12", "150"}
  MaxMoves = 2
VIEW View
INVARIANTS StaysInBounds RoundTrips EmitCases
PROPERTY Coordinatewise
