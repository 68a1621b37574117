SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Graph <- GSelf
  Roots = {1}
  Depth = 4
  Variant = "none"
INVARIANTS AsAlone GDone
