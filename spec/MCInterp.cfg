SPECIFICATION Spec
CONSTANTS MaxT = 5
 MaxLen = 4
 Vals = {0, 6, 13}
INVARIANTS Right InTable Wrapped
CHECK_DEADLOCK FALSE
