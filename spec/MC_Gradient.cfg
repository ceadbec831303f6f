SPECIFICATION Spec
CONSTANTS
  Sfrs = {"0", "3"}
  Dirs = {"0", "1"}
  TObs = {"13"}
  Floors = {"1e-14", "0.01"}
INVARIANTS MassLinear WeightsKeepTotal ScaleFree FlooredKnotsAreDeaf EmitCases
