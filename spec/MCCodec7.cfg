SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 84, 85, 255}
  MaxLen = 7
  MaxN = 6
INVARIANTS Base64Back Base64Text RunsBack Ascii85Apart Ranks
CHECK_DEADLOCK FALSE
