SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Graph <- GMutual
  Roots = {1, 2, 3}
  Depth = 4
  Variant = "none"
INVARIANTS AsAlone GDone
