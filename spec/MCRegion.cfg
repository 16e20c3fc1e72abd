SPECIFICATION Spec
CONSTANTS
  G = 4
  Pads = {0, 1, 2}
INVARIANTS Margin Nested Algebra
CHECK_DEADLOCK FALSE
