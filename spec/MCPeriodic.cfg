SPECIFICATION Spec
CONSTANTS L = 16
 P = 3
 Qs = 2
 D = 3
 R = 40
INVARIANTS Unique Complete
PROPERTY Stays
CHECK_DEADLOCK FALSE
