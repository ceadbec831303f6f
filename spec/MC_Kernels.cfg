SPECIFICATION Spec
CONSTANTS
  Sigs = {"0.01", "0.25", "1", "1.3", "4"}
  Last = 40
INVARIANTS Conserved DensityIsSlope PowerLawSane EmitCases
PROPERTY Forward
