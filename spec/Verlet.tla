------------------------------ MODULE Verlet --------------------------------
(* Lazy collision detection.  Bodies on a line have size R; each has a       *)
(* reference position and a margin, both set when collision detection runs;  *)
(* any rule that chooses the margins in 0..S is allowed (this covers the     *)
(* fixed margin and the adaptive ones).  Detection runs when a body has      *)
(* moved by at least its margin (and has moved at all), or when bodies were  *)
(* added.  Only listed pairs are examined for contact.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids, L, R, S, V, Strict
VARIABLES here, pos, ref, mar, listed, real, fresh, moved
vars == <<here, pos, ref, mar, listed, real, fresh, moved>>
Abs(x) == IF x < 0 THEN -x ELSE x
Pairs == {p \in SUBSET Ids : Cardinality(p) = 2}
Dist(p, q) == LET a == CHOOSE x \in p : TRUE  b == CHOOSE y \in p \ {a} : TRUE IN Abs(q[a] - q[b])
Touching(h, q) == {p \in Pairs : p \subseteq h /\ Dist(p, q) < 2 * R}
Sum(p, m) == LET a == CHOOSE x \in p : TRUE  b == CHOOSE y \in p \ {a} : TRUE IN m[a] + m[b]
Far(b) == pos[b] # ref[b] /\ (IF Strict THEN Abs(pos[b] - ref[b]) >= mar[b] ELSE Abs(pos[b] - ref[b]) > mar[b] + 1)
Need == fresh \/ \E b \in here : Far(b)
Init == /\ here \in SUBSET Ids /\ pos \in [Ids -> 0..L] /\ ref = pos /\ mar = [b \in Ids |-> 0] /\ listed = {} /\ real = {} /\ fresh = TRUE /\ moved = TRUE
\* the part of the step before the motion
Detect == /\ moved /\ moved' = FALSE /\ fresh' = FALSE /\ UNCHANGED <<here, pos>>
          /\ IF Need THEN \E m \in [Ids -> 0..S] :
                  /\ mar' = m /\ ref' = pos
                  /\ listed' = {p \in Pairs : p \subseteq here /\ Dist(p, pos) <= 2 * R + Sum(p, m)}
             ELSE UNCHANGED <<mar, ref, listed>>
          /\ real' = {p \in listed' : p \subseteq here /\ Dist(p, pos) < 2 * R}
Move == /\ ~moved /\ moved' = TRUE /\ \E v \in [Ids -> -V..V] : /\ \A b \in Ids : pos[b] + v[b] \in 0..L
                                                              /\ pos' = [b \in Ids |-> pos[b] + v[b]]
        /\ UNCHANGED <<here, ref, mar, listed, real, fresh>>
Add == /\ moved /\ \E b \in Ids \ here : here' = here \cup {b} /\ fresh' = TRUE /\ UNCHANGED <<pos, ref, mar, listed, real, moved>>
Remove == /\ moved /\ \E b \in here : here' = here \ {b} /\ listed' = {p \in listed : b \notin p} /\ real' = {p \in real : b \notin p} /\ UNCHANGED <<pos, ref, mar, fresh, moved>>
Next == Detect \/ Move \/ Add \/ Remove
Spec == Init /\ [][Next]_vars
Exact == ~moved => real = Touching(here, pos)
=============================================================================
