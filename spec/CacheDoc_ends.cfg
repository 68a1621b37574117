SPECIFICATION Fair
CONSTANTS
  Threads = {1, 2}
  Graph <- GMutual
  Roots = {1, 2}
  Depth = 3
  Variant = "none"
INVARIANTS AsAlone Sound Once Complete
PROPERTY Stays
PROPERTY Ends
