SPECIFICATION Spec
CONSTANTS MaxLen = 8
          Ahead = 0
CHECK_DEADLOCK FALSE
