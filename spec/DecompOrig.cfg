SPECIFICATION Spec
CONSTANTS N = 2
 MaxIter = 3
 Always = TRUE
INVARIANTS FreshForces
CHECK_DEADLOCK TRUE
