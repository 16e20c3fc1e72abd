SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Speeds = {0, 1, 2}
  Clump = 9
INVARIANTS Counted NotTension Symmetric
PROPERTY ReleaseKeeps
CHECK_DEADLOCK FALSE
