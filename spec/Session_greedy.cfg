SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Ahead = 1
INVARIANTS InOrder Whole
PROPERTY Ends
