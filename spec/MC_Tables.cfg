SPECIFICATION Spec
CONSTANTS
  NMet = 2
  NAge = 3
  NFil = 2
  Zk = "0.5"
INVARIANTS FilledAreRight Distinct AtZeroRest EmitCases
