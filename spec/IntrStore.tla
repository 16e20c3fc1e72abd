------------------------------ MODULE IntrStore ------------------------------
(* The interaction container: which pairs of bodies are recorded, as real    *)
(* (geometry and physics exist) or only potential, and how the list, the     *)
(* per-pair lookup and the per-body lists follow each other while bodies are *)
(* appended, erased and re-inserted, interactions are created and erased by  *)
(* hand, and the simulation steps (collider, then interaction loop).         *)
(* The body with id i always stands at the same place, so Touch and Box (the *)
(* pairs that touch, and those with overlapping boxes) are constants.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS N, Pre, MaxLevel, Export

P(a, b) == <<a, b>>
Pairs == {<<i, j>> \in (0..(N-1)) \X (0..(N-1)) : i < j}
\* geometry used by the driver: 0-1 and 1-2 touch, 0-2 and 2-3 have overlapping boxes only
Touch == {P(0,1), P(1,2)} \cap Pairs
Box == (Touch \cup {P(0,2), P(2,3)}) \cap Pairs

VARIABLES len,      \* number of slots
          alive,    \* ids in use
          real, pot,\* recorded pairs
          lost,     \* pairs with overlapping boxes deleted by hand since the collider last started from scratch
          seen,     \* number of slots the collider has processed
          fresh,    \* the collider will start from scratch
          stepped, res
vars == <<len, alive, real, pot, lost, seen, fresh, stepped, res>>
S == [len |-> len, alive |-> alive, real |-> real, pot |-> pot, lost |-> lost, seen |-> seen, fresh |-> fresh]

Has(p, i) == p[1] = i \/ p[2] = i
Both(p) == p[1] \in alive /\ p[2] \in alive
SortIds(X) == SetToSortSeq(X, LAMBDA a, b : a < b)
SortP(X) == SetToSortSeq(X, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Other(p, i) == IF p[1] = i THEN p[2] ELSE p[1]

Obs == [ res |-> res, alive |-> SortIds(alive),
         list |-> SortP(real), all |-> SortP(real \cup pot), count |-> Cardinality(real),
         has |-> SortP({p \in Pairs : Both(p) /\ p \in real \cup pot}),
         ofBody |-> [i \in 1..len |-> SortIds({Other(p, i-1) : p \in {q \in real : Has(q, i-1)}})],
         ofBodyAll |-> [i \in 1..len |-> SortIds({Other(p, i-1) : p \in {q \in real \cup pot : Has(q, i-1)}})] ]

Emit(o) == IF Export THEN PrintT("@T " \o ToJson([s |-> S, o |-> o, t |-> S', obs |-> Obs'])) ELSE TRUE
Init == /\ len = Pre /\ alive = 0..(Pre-1) /\ real = {} /\ pot = {} /\ lost = {} /\ seen = 0 /\ fresh = TRUE
        /\ stepped = FALSE /\ res = "ok"
        /\ (IF Export THEN PrintT("@I " \o ToJson([s |-> S, obs |-> Obs])) ELSE TRUE)

Step ==
  LET known == real \cup pot
      found == {p \in Box : Both(p) /\ p \notin known /\ (fresh \/ p \notin lost)}
      kept  == {p \in pot : p \in Box}
      now   == real \cup kept \cup found
  IN /\ real' = now \cap Touch
     /\ pot' = now \ Touch
     /\ seen' = len
     /\ lost' = IF fresh THEN {} ELSE lost
     /\ fresh' = FALSE /\ stepped' = TRUE /\ res' = "ok"
     /\ UNCHANGED <<len, alive>>
     /\ Emit([op |-> "step"])

AppendBody ==
  /\ len < N
  /\ alive' = alive \cup {len} /\ len' = len + 1
  /\ res' = "ok" /\ stepped' = FALSE
  /\ UNCHANGED <<real, pot, lost, seen, fresh>>
  /\ Emit([op |-> "append"])

EraseBody(i) ==
  /\ i \in alive
  /\ alive' = alive \ {i}
  /\ real' = {p \in real : ~Has(p, i)} /\ pot' = {p \in pot : ~Has(p, i)}
  /\ res' = "ok" /\ stepped' = FALSE
  /\ UNCHANGED <<len, lost, seen, fresh>>
  /\ Emit([op |-> "eraseBody", id |-> i])

\* a new body (own = FALSE) or the erased body object itself (own = TRUE) goes to a free slot
InsertBody(i, own) ==
  /\ i < len /\ i \notin alive
  /\ alive' = alive \cup {i}
  /\ fresh' = TRUE
  /\ res' = "ok" /\ stepped' = FALSE
  /\ UNCHANGED <<len, real, pot, lost, seen>>
  /\ Emit([op |-> "insertBody", id |-> i, own |-> own])

Create(p) ==
  /\ Both(p)
  /\ IF p \in real \cup pot THEN res' = "RuntimeError" /\ UNCHANGED real
     ELSE res' = "ok" /\ real' = real \cup {p}
  /\ stepped' = FALSE /\ UNCHANGED <<len, alive, pot, lost, seen, fresh>>
  /\ Emit([op |-> "create", p |-> p])

\* erasing by hand makes a real interaction potential; anything else is ignored
EraseIntr(p) ==
  /\ real' = real \ {p} /\ pot' = IF p \in real THEN pot \cup {p} ELSE pot
  /\ res' = "ok" /\ stepped' = FALSE /\ UNCHANGED <<len, alive, lost, seen, fresh>>
  /\ Emit([op |-> "eraseIntr", p |-> p])

EraseNonReal ==
  /\ pot' = {} /\ lost' = lost \cup {p \in pot \cap Box : p[2] < seen}
  /\ res' = "ok" /\ stepped' = FALSE /\ UNCHANGED <<len, alive, real, seen, fresh>>
  /\ Emit([op |-> "eraseNonReal"])

Clear ==
  /\ real' = {} /\ pot' = {} /\ fresh' = TRUE
  /\ res' = "ok" /\ stepped' = FALSE /\ UNCHANGED <<len, alive, lost, seen>>
  /\ Emit([op |-> "clear"])

\* only real interactions are stored in a file
SaveLoad ==
  /\ pot' = {} /\ fresh' = TRUE
  /\ res' = "ok" /\ stepped' = FALSE /\ UNCHANGED <<len, alive, real, lost, seen>>
  /\ Emit([op |-> "saveload"])

Next == Step \/ AppendBody \/ EraseNonReal \/ Clear \/ SaveLoad
        \/ (\E i \in 0..(N-1) : EraseBody(i))
        \/ (\E i \in 0..(N-1), own \in BOOLEAN : InsertBody(i, own))
        \/ (\E p \in Pairs : p[2] < len /\ (Create(p) \/ EraseIntr(p)))
Spec == Init /\ [][Next]_vars
Bound == MaxLevel = 0 \/ TLCGet("level") <= MaxLevel

\* properties of the model
Disjoint == real \cap pot = {}
OnlyLiving == \A p \in real \cup pot : Both(p)
\* whenever a step has been made, every touching living pair is real unless its deletion was asked for
Complete == stepped => \A p \in Touch : Both(p) /\ p \notin lost => p \in real
Sound == stepped => real \subseteq Touch
=============================================================================
