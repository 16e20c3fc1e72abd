SPECIFICATION Spec
CONSTANTS Grads <- GradSet MaxSteps = 5 H0 = 3 X0 = 5
INVARIANTS Affine MeanField
CHECK_DEADLOCK FALSE
