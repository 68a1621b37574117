SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Graph <- GTree
  Roots = {1}
  Depth = 3
  Variant = "shared"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
