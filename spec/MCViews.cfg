SPECIFICATION Spec
CONSTANTS
 Lays = {"C", "R"}
 Dirs = {"F", "B"}
 Big = 0
 Depth = 2
 Emit = TRUE
 Deep = FALSE
INVARIANTS Sound Partition Laws Report
CHECK_DEADLOCK FALSE
