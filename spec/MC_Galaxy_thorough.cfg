SPECIFICATION Spec
CONSTANTS
  Grids <- GridsT
  Sfrs = {"0", "1", "30"}
  TObs = {"0.02", "1.0", "2.5", "6", "13.8", "20"}
  Ages <- AgesT
  MaxKnots = 5
INVARIANTS MassIsIntegral MassGrows WeightsAreDistribution NoOldStars Causal MassBracketed RefineInvariant ScaleInvariant EmitCases
PROPERTY PrefixStable
