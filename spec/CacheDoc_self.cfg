SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Graph <- GSelf
  Roots = {1}
  Depth = 3
  Variant = "none"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
