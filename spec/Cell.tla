-------------------------------- MODULE Cell --------------------------------
(* Deforming periodic cell in one dimension, time step 1, exact: a gradient  *)
(* assigned by the user takes effect at the end of the current step, the     *)
(* cell follows it from the next step on, and bodies at rest with respect to *)
(* the cell follow the cell exactly.                                         *)
EXTENDS Integers
CONSTANTS Grads, MaxSteps, H0, X0
GradSet == {-2, 0, 1, 2}
VARIABLES h, g, pending, prev, x, v, n
vars == <<h, g, pending, prev, x, v, n>>
Init == h = H0 /\ g = 0 /\ pending = <<>> /\ prev = 0 /\ x = X0 /\ v = 0 /\ n = 0
Assign(G) == n < MaxSteps /\ pending' = <<G>> /\ UNCHANGED <<h, g, prev, x, v, n>>
CellStep(H, G) == H + G * H
\* velocity after convection (order 2) and change of gradient, then position
VelStep(V, X, Gprev, G) == V + Gprev * V + (G - Gprev) * X
Step == LET G == IF pending = <<>> THEN g ELSE pending[1]  V == VelStep(v, x, prev, G) IN
        /\ n < MaxSteps /\ n' = n + 1
        /\ h' = CellStep(h, g) /\ g' = G /\ pending' = <<>> /\ prev' = G
        /\ v' = V /\ x' = x + V
Next == Step \/ \E G \in Grads : Assign(G)
Spec == Init /\ [][Next]_vars
\* the body is where the cell will be after its next update: same reduced coordinate
Affine == x * H0 = X0 * CellStep(h, g)
\* its velocity is the one the gradient imposed where it was before it moved
MeanField == v + v * g = g * x
=============================================================================
