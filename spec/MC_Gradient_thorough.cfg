SPECIFICATION Spec
CONSTANTS
  Sfrs = {"0", "3", "0.005"}
  Dirs = {"0", "1"}
  TObs = {"8", "13"}
  Floors = {"1e-14", "0.01"}
INVARIANTS MassLinear WeightsKeepTotal ScaleFree FlooredKnotsAreDeaf EmitCases
