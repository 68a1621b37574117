SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Graph <- GWide
  Roots = {1, 2}
  Depth = 4
  Variant = "none"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
