SPECIFICATION Spec
CONSTANTS NA = 2
 SA = 3
 Mu = 500
 MaxU = 5
 Fragile = FALSE
 UnpMax = 2
CONSTRAINT Small
INVARIANTS Tension Coulomb BrokenHasNothing NothingWithoutContact
PROPERTY Irreversible
CHECK_DEADLOCK FALSE
