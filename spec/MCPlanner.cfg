INIT Init
NEXT Next
CONSTANTS N = 3 Z = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
