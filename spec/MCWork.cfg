SPECIFICATION Spec
CONSTANTS
 MaxDim = 3
 Depth = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
