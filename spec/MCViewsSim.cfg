SPECIFICATION Spec
CONSTANTS
 Lays = {"C", "R"}
 Dirs = {"F", "B"}
 Big = 2
 Depth = 7
 Emit = TRUE
 Deep = TRUE
INVARIANTS Sound Report
CHECK_DEADLOCK FALSE
