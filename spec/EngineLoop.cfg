SPECIFICATION Spec
CONSTANTS MaxLevel = 7
 MaxIter = 2
 Export = TRUE
VIEW S
CONSTRAINT Bound
INVARIANTS Once Ordered InStep
PROPERTY Stable
CHECK_DEADLOCK FALSE
