SPECIFICATION Spec
CONSTANTS N = 2
 Coords = {0, 3}
 Sizes = {1, 2}
 Axes = {1, 2}
 MaxLevel = 12
CONSTRAINT Bound
INVARIANTS Complete Sound SortedL
CHECK_DEADLOCK FALSE
