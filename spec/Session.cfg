SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Ahead = 0
INVARIANTS InOrder Whole
PROPERTY Ends
