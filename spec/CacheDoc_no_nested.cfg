SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Graph <- GSelf
  Roots = {1}
  Depth = 2
  Variant = "nested"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
