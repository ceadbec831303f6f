SPECIFICATION Spec
CONSTANTS
  Sfrs = {"0", "5"}
  TObs = {"3", "8", "13.8"}
  Centres = {"-3.5", "-2.25", "-1"}
  Scatters = {"0.1", "0.6"}
  Floors = {"1e-14", "0.1"}
INVARIANTS JointIsDistribution Marginals Linear MassWeighted EmitCases
