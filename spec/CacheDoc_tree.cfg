SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Graph <- GTree
  Roots = {1, 2, 3}
  Depth = 3
  Variant = "none"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
