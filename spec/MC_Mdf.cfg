SPECIFICATION Spec
CONSTANTS
  Centres = {"-12", "-4.1", "-3", "-2.5", "-2.05", "-2", "-1.75", "-1", "0.5", "3.9", "7", "9.9", "10.5"}
  Scatters = {"0.001", "0.05", "0.1", "0.3", "1", "3"}
  MetGrids <- GridsC
INVARIANTS IsDistribution Complementary Monotone EmitCases
PROPERTY Ordered
