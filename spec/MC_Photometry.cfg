SPECIFICATION Spec
CONSTANTS
  Levels = {"0", "1"}
  Factors = {"0.01", "7"}
  NFilter = 5
  Zs = {"0.5", "3"}
INVARIANTS NonNegative ScaleLaw FilterScaleFree FlatIsZeroMag EmitCases
PROPERTIES OnlyInsideMatters MoreLightIsMoreFlux
