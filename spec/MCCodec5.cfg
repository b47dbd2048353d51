SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 84, 85, 255}
  MaxLen = 5
  MaxN = 5
INVARIANTS Base64Back Base64Text RunsBack Ascii85Apart Ranks
CHECK_DEADLOCK FALSE
