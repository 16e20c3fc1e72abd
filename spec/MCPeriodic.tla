----------------------------- MODULE MCPeriodic -----------------------------
(* two bodies wandering on a periodic line, smaller than a quarter of it: at *)
(* most one image touches, and while they touch and move slowly, it is the   *)
(* same one, so that it can be remembered.                                   *)
EXTENDS Periodic
CONSTANTS L, P, Qs, D, R
VARIABLES x, y, s
Init == x \in 0..(L - 1) /\ y \in -R..R /\ s = Over1(x, P, y, Qs, L)
Mv == \E d \in -D..D, e \in -D..D : x + d \in -R..R /\ y + e \in -R..R /\ x' = x + d /\ y' = y + e /\ s' = Over1(x + d, P, y + e, Qs, L)
Next == Mv
Spec == Init /\ [][Next]_<<x, y, s>>
Unique == Cardinality(s) <= 1
Complete == \A k \in -6..6 : (LET d == y + k * L - x IN -(P + Qs) < d /\ d < P + Qs) => k \in s
Stays == [][(s # {} /\ s' # {}) => s = s']_<<x, y, s>>
=============================================================================
