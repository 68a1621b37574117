SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Graph <- GMutual
  Roots = {1, 2, 3}
  Depth = 4
  Variant = "none"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
