SPECIFICATION Spec
CONSTANTS N = 4
 Pre = 3
 MaxLevel = 8
 Export = TRUE
VIEW S
CONSTRAINT Bound
INVARIANTS Disjoint OnlyLiving Complete Sound
CHECK_DEADLOCK FALSE
