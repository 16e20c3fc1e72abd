----------------------------- MODULE SweepPrune -----------------------------
(* The algorithm of collision detection: on each axis a list of lower and    *)
(* upper ends of boxes is kept sorted by insertion; when a lower end passes  *)
(* an upper end of another body downwards, the pair is tested on all axes.   *)
(* Checked: after every run exactly the overlapping pairs are known, for     *)
(* every sequence of arbitrary displacements, removals and additions.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Coords, Sizes, Axes, MaxLevel
VARIABLES pos,    \* pos[i][a], or NoBody
          size,   \* half size
          list,   \* list[a]: sequence of <<i, isMin>>
          known,  \* list of pairs known
          ran     \* collision detection has run since the last change
vars == <<pos, size, list, known, ran>>
Bodies == 1..N
NoBody == <<>>
There(i) == pos[i] # NoBody
Lo(i, a) == pos[i][a] - size[i]
Hi(i, a) == pos[i][a] + size[i]
Over(i, j) == There(i) /\ There(j) /\ \A a \in Axes : Lo(i, a) <= Hi(j, a) /\ Lo(j, a) <= Hi(i, a)
Strict(i, j) == There(i) /\ There(j) /\ \A a \in Axes : Lo(i, a) < Hi(j, a) /\ Lo(j, a) < Hi(i, a)
\* the coordinate of an entry; for a vanished body it stays where it was in the list (any value consistent with its neighbours)
C(e, a, old) == IF There(e[1]) THEN (IF e[2] THEN Lo(e[1], a) ELSE Hi(e[1], a)) ELSE old
RECURSIVE Sift(_, _, _, _)
\* move entry at k of q (pairs <<entry, coord>>) down; returns <<q, pairs met>>
Sift(q, k, met, a) == IF k = 1 \/ q[k - 1][2] <= q[k][2] THEN <<q, met>>
    ELSE LET up == q[k - 1][1]  me == q[k][1]
             m2 == IF me[2] /\ ~up[2] /\ me[1] # up[1] THEN met \cup {{me[1], up[1]}} ELSE met
         IN Sift([q EXCEPT ![k - 1] = q[k], ![k] = q[k - 1]], k - 1, m2, a)
RECURSIVE SortFrom(_, _, _, _)
SortFrom(q, k, met, a) == IF k > Len(q) THEN <<q, met>>
    ELSE LET r == Sift(q, k, met, a) IN SortFrom(r[1], k + 1, r[2], a)
Coord(q, a) == [k \in 1..Len(q) |-> <<q[k][1], C(q[k][1], a, q[k][2])>>]
Init == /\ pos = [i \in Bodies |-> NoBody] /\ size \in [Bodies -> Sizes]
        /\ list = [a \in Axes |-> <<>>] /\ known = {} /\ ran = FALSE
Move == \E i \in Bodies : \E x \in [Axes -> Coords] : There(i) /\ pos' = [pos EXCEPT ![i] = x] /\ ran' = FALSE /\ UNCHANGED <<size, list, known>>
Create == \E i \in Bodies : \E x \in [Axes -> Coords] : ~There(i) /\ (\A a \in Axes : \A k \in 1..Len(list[a]) : list[a][k][1][1] # i)
          /\ pos' = [pos EXCEPT ![i] = x] /\ ran' = FALSE /\ UNCHANGED <<size, list, known>>
Remove == \E i \in Bodies : There(i) /\ pos' = [pos EXCEPT ![i] = NoBody] /\ known' = {p \in known : i \notin p} /\ ran' = FALSE /\ UNCHANGED <<size, list>>
Fresh(a) == LET new == {i \in Bodies : There(i) /\ \A k \in 1..Len(list[a]) : list[a][k][1][1] # i}
                RECURSIVE Add(_, _)
                Add(q, s) == IF s = {} THEN q ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j IN Add(q \o <<<<<<i, TRUE>>, 0>>, <<<<i, FALSE>>, 0>>>>, s \ {i})
            IN Add(list[a], new)
Run == /\ ~ran /\ ran' = TRUE
       /\ LET S == [a \in Axes |-> SortFrom(Coord(Fresh(a), a), 2, {}, a)]
              met == UNION {S[a][2] : a \in Axes}
          IN /\ list' = [a \in Axes |-> S[a][1]]
             /\ known' = {p \in known : \A i, j \in p : i # j => Over(i, j)} \cup {p \in met : \E i, j \in p : i # j /\ Over(i, j)}
       /\ UNCHANGED <<pos, size>>
Next == Move \/ Create \/ Remove \/ Run
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxLevel
Complete == ran => \A i, j \in Bodies : i < j /\ Strict(i, j) => {i, j} \in known
Sound == ran => \A p \in known : \E i, j \in p : i # j /\ Over(i, j)
SortedL == ran => \A a \in Axes : \A k \in 2..Len(list[a]) : list[a][k - 1][2] <= list[a][k][2]
=============================================================================
