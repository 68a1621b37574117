SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Graph <- GTree
  Roots = {1}
  Depth = 2
  Variant = "early"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
