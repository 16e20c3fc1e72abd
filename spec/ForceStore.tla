----------------------------- MODULE ForceStore -----------------------------
(* Accumulation of forces, torques and displacements acting on bodies.       *)
(* q \in {"F","T"}: added value until the next reset plus a permanent value  *)
(* that stays until it is replaced or everything is reset; "M","R" (imposed  *)
(* displacement and rotation) have no permanent part.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES n,     \* number of bodies
          add,   \* add[q][i]: sum added to body i since the last reset (only non-zero entries are stored)
          perm   \* perm[q][i]: permanent value

fvars == <<n, add, perm>>
Q == {"F", "T", "M", "R"}
Zero == <<0, 0, 0>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE Zero
Put(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]
Nothing == [q \in Q |-> [i \in {} |-> Zero]]
Total(q, i) == IF q \in {"F", "T"} THEN Plus(Get(add[q], i), Get(perm[q], i)) ELSE Get(add[q], i)

FInit(k) == n = k /\ add = Nothing /\ perm = Nothing
FAppend(k) == n' = n + k /\ UNCHANGED <<add, perm>>
FAdd(q, i, v) == i \in 0..(n-1) /\ add' = [add EXCEPT ![q] = Put(@, i, Plus(Get(@, i), v))] /\ UNCHANGED <<n, perm>>
FSetPerm(q, i, v) == i \in 0..(n-1) /\ perm' = [perm EXCEPT ![q] = Put(@, i, v)] /\ UNCHANGED <<n, add>>
FReset(all) == add' = Nothing /\ perm' = (IF all THEN Nothing ELSE perm) /\ UNCHANGED n
\* the same value for every body (as a gravity engine does with equal masses)
FAddAll(q, v) == add' = [add EXCEPT ![q] = [j \in 0..(n-1) |-> Plus(Get(@, j), v)]] /\ UNCHANGED <<n, perm>>
FStay == UNCHANGED fvars
=============================================================================
