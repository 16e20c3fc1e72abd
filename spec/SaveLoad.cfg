SPECIFICATION Spec
CONSTANTS
 N = 3
 Slots = {a, b}
 MaxOps = 7
 None = None
INVARIANTS Determined Covered
CHECK_DEADLOCK FALSE
