SPECIFICATION Spec
CONSTANTS N = 3
 Coords = {0, 3, 5}
 Sizes = {1, 2}
 Axes = {1}
 MaxLevel = 11
CONSTRAINT Bound
INVARIANTS Complete Sound SortedL
CHECK_DEADLOCK FALSE
