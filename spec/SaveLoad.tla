------------------------------ MODULE SaveLoad ------------------------------
(* Saving and loading.  The physical state is <<x, v>> (any deterministic     *)
(* system does: here x moves by v and is reflected), the part that is not     *)
(* saved is a cache c (the box used in collision detection) which must not    *)
(* influence the future.  Slots hold saved states.                            *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Slots, MaxOps, None
VARIABLES x, v, c, slots, succ, n
vars == <<x, v, c, slots, succ, n>>
Init == x = 0 /\ v = 1 /\ c = 0 /\ slots = [s \in Slots |-> None] /\ succ = [k \in {} |-> None] /\ n = 0
\* one step; the cache is refreshed when the position has left it
NewV == IF x + v > N \/ x + v < 0 THEN -v ELSE v
Learn(op, r) == succ' = [k \in DOMAIN succ \cup {<<x, v, op>>} |-> IF k = <<x, v, op>> THEN (IF k \in DOMAIN succ THEN succ[k] \cup {r} ELSE {r}) ELSE succ[k]]
More == n < MaxOps /\ n' = n + 1
Step == More /\ v' = NewV /\ x' = x + NewV /\ c' = (IF x' \in {c, c + 1} THEN c ELSE x') /\ Learn("step", <<x', v'>>) /\ UNCHANGED slots
Kick(w) == More /\ v' = w /\ succ' = succ /\ UNCHANGED <<x, c, slots>>
Save(s) == More /\ slots' = [slots EXCEPT ![s] = <<x, v>>] /\ UNCHANGED <<x, v, c, succ>>
Load(s) == More /\ slots[s] # None /\ x' = slots[s][1] /\ v' = slots[s][2] /\ c' = x' /\ UNCHANGED <<slots, succ>>
Next == Step \/ (\E w \in 0..2 : Kick(w)) \/ (\E s \in Slots : Save(s) \/ Load(s))
Spec == Init /\ [][Next]_vars
\* the future is a function of the saved state only
Determined == \A k \in DOMAIN succ : Cardinality(succ[k]) = 1
\* the cache never misses the body
Covered == x \in {c, c + 1}
=============================================================================
