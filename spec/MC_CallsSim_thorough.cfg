SPECIFICATION Spec
CONSTANTS
  Fns = {"f", "g", "h"}
  Objs = {"o0", "o1"}
  Vals = {1, 2, 3}
  Threads = {"t1", "t2", "t3", "t4"}
  MaxHist = 60
INVARIANTS Pure EmitCases
