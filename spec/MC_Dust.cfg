SPECIFICATION Spec
CONSTANTS
  Laws = {"calzetti", "leitherer", "joined", "noll", "salim", "triweight"}
  Ampls = {"0", "3", "-2.5"}
  Slopes = {"0", "-0.5", "0.4"}
  Floors = {"0", "0.25", "1"}
  Screens = {0, 1, 7, 30}
  MaxScreens = 2
INVARIANTS OnlyColumnMatters IsFraction NothingWithoutDust SaneCurves EmitCases
PROPERTY MoreDustLessLight
