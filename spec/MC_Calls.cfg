SPECIFICATION Spec
CONSTANTS
  Fns = {"f", "g"}
  Objs = {"o0", "o1"}
  Vals = {1, 2}
  Threads = {"t1", "t2"}
  MaxHist = 7
VIEW View
INVARIANTS Pure
PROPERTIES Kept OnlyTheOwnerWrites
