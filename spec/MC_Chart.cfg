SPECIFICATION Spec
CONSTANTS
  Params = {"default", "other"}
  Times = {2, 8, 14}
  MaxCharts = 2
INVARIANTS Truthful EmitCases
PROPERTIES Kept
