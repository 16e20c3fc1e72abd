------------------------------ MODULE BodyStore ------------------------------
(* The body container of one simulation: slots addressed by id, and the      *)
(* aggregates (clumps) living in the same slots.                             *)
(*                                                                           *)
(* Bodies are identified by a token the driver gives them (1..K); a slot     *)
(* holds 0 (free), a token, or CLUMP.  Ids are 0-based: id i is slot i+1.    *)
(* Token k has mass 2^(k-1) and stands at x = 8k, so the mass of a clump and *)
(* its first moment identify the members they were computed from.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS K,          \* number of body tokens
          MaxSlots,   \* bound on the number of slots
          Clumps,     \* TRUE: operations on clumps are included
          Files,      \* TRUE: saving and loading is included
          Pre,        \* number of bodies present from the start
          MaxLevel    \* bound on the number of operations (0: no bound)

CLUMP == 99
NONE  == -1

VARIABLES tok,   \* sequence of slots
          cl,    \* cl[s]: id of the clump the body in slot s belongs to (own id for a clump), or NONE
          mm,    \* mm[s]: <<mass, moment>> of a clump as last computed, <<0,0>> for others
          res    \* result of the last operation

vars == <<tok, cl, mm, res>>

Pow2(n) == 2^n
Mass(k) == Pow2(k - 1)
Moment(k) == Pow2(k - 1) * 8 * k

Slots == 1..Len(tok)
Ids == 0..(Len(tok) - 1)
Live(s) == tok[s] # 0
In(t) == \E s \in Slots : tok[s] = t
MembersIn(c, id) == {s \in DOMAIN c : c[s] = id /\ s - 1 # id}    \* slots of the members of clump id
Members(id) == MembersIn(cl, id)
IsClump(s) == tok[s] = CLUMP

\* mass and moment of a set of slots
Sum(S, f(_)) == FoldSet(LAMBDA s, a : a + f(s), 0, S)
Props(tk, S) == << Sum(S, LAMBDA s : Mass(tk[s])), Sum(S, LAMBDA s : Moment(tk[s])) >>

------------------------------------------------------------------------------
(* what a user can see *)
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Kind(s) == IF ~Live(s) THEN "-" ELSE IF cl[s] = NONE THEN "s" ELSE IF cl[s] = s - 1 THEN "c" ELSE "m"
Obs == [ res  |-> res,
         len  |-> Len(tok),
         it   |-> SelectSeq([i \in Slots |-> i - 1], LAMBDA i : tok[i + 1] # 0),
         tok  |-> tok,
         cl   |-> [s \in Slots |-> IF Live(s) THEN cl[s] ELSE NONE],
         kind |-> [s \in Slots |-> Kind(s)],
         mem  |-> [s \in Slots |-> IF IsClump(s) THEN SortSet({m - 1 : m \in Members(s - 1)}) ELSE <<>>],
         mm   |-> [s \in Slots |-> IF IsClump(s) THEN mm[s] ELSE <<0, 0>>] ]

S == [tok |-> tok, cl |-> cl, mm |-> mm]
CONSTANT Export
Emit(o) == IF Export THEN PrintT("@T " \o ToJson([s |-> S, o |-> o, t |-> S', obs |-> Obs'])) ELSE TRUE

Init == /\ tok = [i \in 1..Pre |-> i] /\ cl = [i \in 1..Pre |-> NONE] /\ mm = [i \in 1..Pre |-> <<0, 0>>]
        /\ res = "ok"
        /\ (IF Export THEN PrintT("@I " \o ToJson([s |-> S, obs |-> Obs])) ELSE TRUE)

Str(i) == ToString(i)
------------------------------------------------------------------------------
Append1(t) ==
  /\ IF In(t)
     THEN res' = "IndexError" /\ UNCHANGED <<tok, cl, mm>>
     ELSE /\ Len(tok) < MaxSlots
          /\ tok' = Append(tok, t) /\ cl' = Append(cl, NONE) /\ mm' = Append(mm, <<0, 0>>)
          /\ res' = Str(Len(tok))
  /\ Emit([op |-> "append", t |-> t])

\* insertion into a free slot; refused for a slot in use and for an id outside the container
InsertAtId(t, id) ==
  /\ ~In(t)
  /\ IF id \in Ids /\ ~Live(id + 1)
     THEN /\ tok' = [tok EXCEPT ![id + 1] = t] /\ cl' = [cl EXCEPT ![id + 1] = NONE] /\ mm' = [mm EXCEPT ![id + 1] = <<0, 0>>]
          /\ res' = Str(id)
     ELSE res' = "-1" /\ UNCHANGED <<tok, cl, mm>>
  /\ Emit([op |-> "insertAtId", t |-> t, id |-> id])

\* slots freed when the body in slot s is erased
Freed(s, all) ==
  IF IsClump(s) THEN (IF all THEN {s} \cup Members(s - 1) ELSE {s})
  ELSE IF cl[s] # NONE /\ Members(cl[s]) = {s} THEN {s, cl[s] + 1}   \* the last member takes the clump with it
  ELSE {s}

Erase(id, all) ==
  /\ IF id \in Ids /\ Live(id + 1)
     THEN LET F == Freed(id + 1, all)
              G == IF IsClump(id + 1) THEN Members(id) ELSE {}        \* members released
          IN /\ tok' = [s \in Slots |-> IF s \in F THEN 0 ELSE tok[s]]
             /\ cl'  = [s \in Slots |-> IF s \in F \cup G THEN NONE ELSE cl[s]]
             /\ mm'  = [s \in Slots |-> IF s \in F THEN <<0, 0>> ELSE mm[s]]
             /\ res' = "True"
     ELSE res' = "False" /\ UNCHANGED <<tok, cl, mm>>
  /\ Emit([op |-> "erase", id |-> id, all |-> all])

\* look up by id; negative ids count from the end
Get(id) ==
  /\ LET i == IF id >= 0 THEN id ELSE Len(tok) + id
     IN res' = IF i \in Ids THEN Str(tok[i + 1]) ELSE "IndexError"
  /\ UNCHANGED <<tok, cl, mm>>
  /\ Emit([op |-> "get", id |-> id])

------------------------------------------------------------------------------
NewClump(ids) ==   \* ids: set of ids of bodies that are not clumps
  LET c == Len(tok) IN
  /\ Len(tok) < MaxSlots
  /\ tok' = Append(tok, CLUMP)
  /\ cl'  = Append([s \in Slots |-> IF s - 1 \in ids THEN c ELSE cl[s]], c)
  /\ mm'  = Append(mm, Props(tok, {i + 1 : i \in ids}))
  /\ res' = Str(c)

Clump(ids) ==
  /\ \A i \in ids : Live(i + 1) /\ ~IsClump(i + 1)
  /\ NewClump(ids)
  /\ Emit([op |-> "clump", ids |-> SortSet(ids)])

AppendClumped(ts) ==  \* new bodies clumped together right away
  LET sq == SortSet(ts) IN
  /\ \A t \in ts : ~In(t)
  /\ Len(tok) + Cardinality(ts) + 1 <= MaxSlots
  /\ LET c == Len(tok) + Len(sq) IN
     /\ tok' = (tok \o sq) \o <<CLUMP>>
     /\ cl' = (cl \o [i \in 1..Len(sq) |-> c]) \o <<c>>
     /\ mm' = (mm \o [i \in 1..Len(sq) |-> <<0, 0>>])
              \o << <<Sum(ts, Mass), Sum(ts, Moment)>> >>
     /\ res' = Str(c)
  /\ Emit([op |-> "appendClumped", ts |-> sq])

\* adding: standalone bodies join; a clump, or a member of another clump, brings that whole clump along and
\* the emptied clump is deleted; what already belongs to the target is left alone
AddTo(ids, c) ==
  /\ IsClump(c + 1)
  /\ \A i \in ids : Live(i + 1)
  /\ LET Gone == { (IF IsClump(i + 1) THEN i ELSE cl[i + 1]) : i \in {j \in ids : cl[j + 1] # NONE} } \ {c}
         Join == {i + 1 : i \in {j \in ids : cl[j + 1] = NONE}} \cup UNION {Members(g) : g \in Gone}
         M == Members(c) \cup Join
     IN /\ M # {}
        /\ tok' = [s \in Slots |-> IF s - 1 \in Gone THEN 0 ELSE tok[s]]
        /\ cl' = [s \in Slots |-> IF s \in Join THEN c ELSE IF s - 1 \in Gone THEN NONE ELSE cl[s]]
        /\ mm' = [s \in Slots |-> IF s = c + 1 THEN Props(tok, M) ELSE IF s - 1 \in Gone THEN <<0, 0>> ELSE mm[s]]
  /\ res' = "ok"
  /\ Emit([op |-> "addToClump", ids |-> SortSet(ids), c |-> c])

\* releasing: refused when the body is not a member, or only two would be left
Release(i, c) ==
  /\ Live(i + 1) /\ IsClump(c + 1)
  /\ LET ok == cl[i + 1] = c /\ i # c /\ Cardinality(Members(c)) # 2
         M == Members(c) \ {i + 1}
     IN /\ (ok => M # {})
        /\ cl' = IF ok THEN [cl EXCEPT ![i + 1] = NONE] ELSE cl
        /\ mm' = IF ok THEN [mm EXCEPT ![c + 1] = Props(tok, M)] ELSE mm
  /\ res' = "ok" /\ UNCHANGED tok
  /\ Emit([op |-> "releaseFromClump", id |-> i, c |-> c])

\* recompute all clumps except the excluded ones (every clump must have members)
UpdateProps(ex) ==
  /\ \A s \in Slots : IsClump(s) => Members(s - 1) # {}
  /\ mm' = [s \in Slots |-> IF IsClump(s) /\ s - 1 \notin ex THEN Props(tok, Members(s - 1)) ELSE mm[s]]
  /\ res' = "ok" /\ UNCHANGED <<tok, cl>>
  /\ Emit([op |-> "updateClumpProperties", ex |-> SortSet(ex)])

\* a file round trip changes nothing
SaveLoad == Files /\ res' = "ok" /\ UNCHANGED <<tok, cl, mm>> /\ Emit([op |-> "saveload"])

------------------------------------------------------------------------------
Bound == MaxLevel = 0 \/ TLCGet("level") <= MaxLevel
SubIds(n) == {X \in SUBSET Ids : Cardinality(X) \in 1..n}
\* with clumps the tokens are taken in order (they are interchangeable until they get a slot)
Toks == IF ~Clumps THEN 1..K ELSE LET free == {t \in 1..K : ~In(t)} IN IF free = {} THEN {} ELSE {Min(free)}
Next ==
  \/ \E t \in Toks : Append1(t)
  \/ \E t \in Toks, id \in (-1)..(Len(tok) + 1) : InsertAtId(t, id)
  \/ \E id \in (IF Clumps THEN Ids ELSE (-2)..(Len(tok) + 1)), all \in (IF Clumps THEN BOOLEAN ELSE {FALSE}) : Erase(id, all)
  \/ (~Clumps /\ \E id \in (-(Len(tok) + 2))..(Len(tok) + 1) : Get(id))
  \/ SaveLoad
  \/ (Clumps /\ \E X \in SubIds(3) : Clump(X))
  \/ (Clumps /\ \E X \in {Y \in SUBSET (1..K) : Cardinality(Y) \in 1..2} : AppendClumped(X))
  \/ (Clumps /\ \E X \in SubIds(2), c \in Ids : AddTo(X, c))
  \/ (Clumps /\ \E i \in Ids, c \in Ids : Release(i, c))
  \/ (Clumps /\ \E X \in {{}} \cup {{c} : c \in {i \in Ids : IsClump(i + 1)}} : UpdateProps(X))

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* properties of the model *)
TypeOK == /\ tok \in Seq(0..K \cup {CLUMP}) /\ Len(cl) = Len(tok) /\ Len(mm) = Len(tok)
\* one body is in at most one slot
Unique == \A s, t \in Slots : (tok[s] = tok[t] /\ tok[s] \in 1..K) => s = t
\* membership is two-sided and points to living clumps; clumps are never nested
Consistent == \A s \in Slots :
  /\ (tok[s] = CLUMP <=> (Live(s) /\ cl[s] = s - 1))
  /\ (tok[s] \in 1..K /\ cl[s] # NONE => cl[s] \in Ids /\ IsClump(cl[s] + 1))
  /\ (tok[s] = 0 => cl[s] = NONE)
\* ids are stable: an operation never changes which id an existing body has (only erasing frees it)
Stable == [][\A s \in Slots : tok[s] # 0 => (s \in DOMAIN tok' /\ tok'[s] \in {tok[s], 0})]_vars
\* slots are never given up
Grows == [][Len(tok') >= Len(tok)]_vars
=============================================================================
