SPECIFICATION Spec
CONSTANTS
  Levels = {"0", "2", "7"}
  Shares = {1, 2}
  Avs = {"0.1", "0.5", "3"}
  Zs = {"0.3", "1.5"}
  Laws = {"calzetti", "salim", "noll", "leitherer"}
  NFilter = 3
INVARIANTS Photometry34 ScreenCommutes EmitCases
PROPERTIES GrowthScales DustDims
