SPECIFICATION Spec
CONSTANTS N = 2
 MaxIter = 3
 Always = FALSE
INVARIANTS Fresh FreshForces Drained InStep
CHECK_DEADLOCK TRUE
