SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3}
 L = 5
 R = 1
 S = 1
 V = 1
 Strict = TRUE
INVARIANT Exact
