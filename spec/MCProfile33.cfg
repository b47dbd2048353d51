SPECIFICATION Spec
CONSTANTS MaxCost = 4
 MaxTime = 4
 MaxLen = 3
 MaxStreams = 2
 NC = 3
 NT = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
