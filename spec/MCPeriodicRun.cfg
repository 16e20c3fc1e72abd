SPECIFICATION Spec
INVARIANTS Limit Spaced EveryPeriod
CHECK_DEADLOCK FALSE
