SPECIFICATION Spec
CONSTANTS
  MaxMet = 3
INVARIANTS InOrder ReloadIsRetrieval NoStaleLines EmitCases
