---------------------------- MODULE MCForceStore ----------------------------
(* the accumulation model on its own, all histories up to a bound *)
EXTENDS ForceStore
CONSTANTS MaxN, MaxLevel
V == {<<1, -3, 7>>, <<-2, 6, -14>>}
Init == FInit(1)
Append1 == n < MaxN /\ FAppend(1)
Add == \E q \in Q, i \in 0..(n-1), v \in V : FAdd(q, i, v)
SetPerm == \E q \in {"F", "T"}, i \in 0..(n-1), v \in V \cup {Zero} : FSetPerm(q, i, v)
Reset == \E all \in BOOLEAN : FReset(all)
Next == Append1 \/ Add \/ SetPerm \/ Reset
Spec == Init /\ [][Next]_fvars
Bound == TLCGet("level") <= MaxLevel
\* adding to one body changes that quantity of that body only; permanent values survive an ordinary reset
Local == [][Cardinality({<<q, i>> \in Q \X (0..(n-1)) : Total(q, i) # Total(q, i)'}) > 1 => add' = Nothing]_fvars
PermSurvives == [][(perm' # perm) => (perm' = Nothing \/ Cardinality({<<q, i>> \in {"F","T"} \X (0..(n-1)) : Get(perm[q], i) # Get(perm'[q], i)}) <= 1)]_fvars
OnlyBodies == \A q \in Q : DOMAIN add[q] \cup DOMAIN perm[q] \subseteq 0..(n-1)
=============================================================================
