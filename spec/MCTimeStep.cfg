SPECIFICATION Spec
CONSTANTS Lims = {0, 40, 50, 60}
 Max = 55
 Default = 30
 Interval = 2
 MaxIter = 24
INVARIANTS Stable Arrives
PROPERTY Slowly
CHECK_DEADLOCK FALSE
