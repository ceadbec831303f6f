SPECIFICATION Spec
CONSTANT
  What = "filter"
INVARIANTS OnlyDesignated OthersDoNotMatter EnvOnlyIfNeeded PathWins EmitCases
