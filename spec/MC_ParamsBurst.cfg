SPECIFICATION Spec
CONSTANTS
  Kind = "burst"
  Values = {"-150", "-20", "-2", "6.5", "9.25", "40", "150"}
  MaxMoves = 3
VIEW View
INVARIANTS StaysInBounds RoundTrips EmitCases
PROPERTY Coordinatewise
