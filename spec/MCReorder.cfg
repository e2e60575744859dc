SPECIFICATION Spec
CONSTANT MaxBlocks = 5
INVARIANTS Permutation MoveIsSwaps Inverse Arrives
CHECK_DEADLOCK FALSE
