SPECIFICATION Spec
CONSTANT
  What = "ssp"
INVARIANTS OnlyDesignated OthersDoNotMatter EnvOnlyIfNeeded PathWins EmitCases
