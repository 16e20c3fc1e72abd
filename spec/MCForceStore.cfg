SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxLevel = 5
CONSTRAINT Bound
INVARIANT OnlyBodies
PROPERTIES Local PermSurvives
CHECK_DEADLOCK FALSE
