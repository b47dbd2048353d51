SPECIFICATION Spec
CONSTANTS MaxCost = 3
 MaxTime = 4
 MaxLen = 2
 MaxStreams = 2
 NC = 2
 NT = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
