SPECIFICATION Spec
CONSTANT
  What = "ssp"
INVARIANTS RealFiles OnlyOnTheWay SamePlace UpFromThere EmitCases
