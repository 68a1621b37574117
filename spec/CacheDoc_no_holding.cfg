SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Graph <- GSelf
  Roots = {1}
  Depth = 2
  Variant = "holding"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
