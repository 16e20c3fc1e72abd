SPECIFICATION Spec
CONSTANTS Orig = FALSE
 MaxAsk = 2
INVARIANTS Right Symmetric
CHECK_DEADLOCK FALSE
