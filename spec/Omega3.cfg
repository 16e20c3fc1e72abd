SPECIFICATION Spec
CONSTANTS MaxScenes = 3
 MaxC = 1
 Slots = {"p", "q"}
 Export = TRUE
VIEW S
INVARIANT Ok
PROPERTIES OneScene SlotsKept
CHECK_DEADLOCK FALSE
