SPECIFICATION Spec
CONSTANTS K = 4
 MaxSlots = 6
 Clumps = TRUE
 Files = TRUE
 Pre = 3
 MaxLevel = 4
 Export = TRUE
VIEW S
CONSTRAINT Bound
INVARIANTS TypeOK Unique Consistent
PROPERTIES Stable Grows
CHECK_DEADLOCK FALSE
