SPECIFICATION Spec
CONSTANTS
  Temps <- TempsC
  Xs <- XsC
INVARIANTS SameEnergy RayleighJeans Wien Between EmitCases
PROPERTY HotterIsBrighter
