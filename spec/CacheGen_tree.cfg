SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3}
  Graph <- GTree
  Roots = {1, 2, 3}
  Depth = 4
  Variant = "none"
INVARIANTS AsAlone GDone
