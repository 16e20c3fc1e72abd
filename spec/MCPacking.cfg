CONSTANTS Depth = 3
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Together Count Ratio Shape
CHECK_DEADLOCK FALSE
