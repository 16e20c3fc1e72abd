SPECIFICATION Spec
CONSTANTS N = 3
 MaxIter = 2
 Always = FALSE
INVARIANTS Fresh FreshForces Drained InStep
CHECK_DEADLOCK TRUE
