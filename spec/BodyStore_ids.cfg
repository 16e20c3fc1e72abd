SPECIFICATION Spec
CONSTANTS K = 3
 MaxSlots = 4
 Clumps = FALSE
 Files = TRUE
 Pre = 0
 MaxLevel = 0
 Export = TRUE
VIEW S
CONSTRAINT Bound
INVARIANTS TypeOK Unique Consistent
PROPERTIES Stable Grows
CHECK_DEADLOCK FALSE
