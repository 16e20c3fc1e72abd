SPECIFICATION Spec
CONSTANT MaxLevel = 2
CONSTRAINT Bound

PROPERTIES Blocked Still
CHECK_DEADLOCK FALSE
