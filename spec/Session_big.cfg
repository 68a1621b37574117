SPECIFICATION Spec
CONSTANTS MaxLen = 10
          Ahead = 0
INVARIANTS InOrder Whole
PROPERTY Ends
