SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2}
 L = 7
 R = 1
 S = 2
 V = 2
 Strict = TRUE
INVARIANT Exact
