SPECIFICATION Spec
CONSTANTS Orig = TRUE
 MaxAsk = 2
INVARIANTS Right Symmetric
CHECK_DEADLOCK FALSE
