SPECIFICATION Spec
CONSTANTS
  Fbs = {"-8", "-3", "-1"}
  Peaks = {"5.0", "6.2", "7.5"}
  Fracs = {"0", "0.5", "1"}
  MaxBursts = 2
INVARIANTS MassConserved NonNegative EmitCases
PROPERTY OutsideOnlyScaled
