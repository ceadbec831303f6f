SPECIFICATION Spec
CONSTANTS
  Levels = {"0", "2"}
  Shares = {1, 2}
  Avs = {"0.5", "3"}
  Zs = {"0.3", "1.5"}
  Laws = {"calzetti", "salim"}
  NFilter = 3
INVARIANTS Photometry34 ScreenCommutes EmitCases
PROPERTIES GrowthScales DustDims
