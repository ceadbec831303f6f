SPECIFICATION Spec
CONSTANT
  What = "filter"
INVARIANTS RealFiles OnlyOnTheWay SamePlace UpFromThere EmitCases
