SPECIFICATION Spec
CONSTANTS W = {1, 2, 3}
 MaxIter = 5
 MaxOps = 4
INVARIANTS OneAtATime NoOverrun Exact
PROPERTY PauseStops
CHECK_DEADLOCK FALSE
