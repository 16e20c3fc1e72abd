SPECIFICATION Spec
CONSTANTS MaxScenes = 2
 MaxC = 2
 Slots = {"p"}
 Export = TRUE
VIEW S
INVARIANT Ok
PROPERTIES OneScene SlotsKept
CHECK_DEADLOCK FALSE
