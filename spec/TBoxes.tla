------------------------------- MODULE TBoxes -------------------------------
(* recorded runs of collision detection without periodicity                  *)
EXTENDS Boxes, TraceLib
VARIABLES l, B, avoid, slack
vars == <<l, B, avoid, slack>>
INF == 1000000
Sh(x, d) == [i \in 1..3 |-> x[i] + d[i]]
\* box of a shape; coordinates of the recorded bodies are integers
BoxOf(b) == CASE b.k = "sphere" -> [lo |-> [i \in 1..3 |-> b.x[i] - b.r * b.enl], hi |-> [i \in 1..3 |-> b.x[i] + b.r * b.enl]]
              [] b.k = "box"    -> [lo |-> [i \in 1..3 |-> b.x[i] - b.ext[i]], hi |-> [i \in 1..3 |-> b.x[i] + b.ext[i]]]
              [] b.k = "wall"   -> [lo |-> [i \in 1..3 |-> IF i = b.axis THEN b.x[i] ELSE -INF], hi |-> [i \in 1..3 |-> IF i = b.axis THEN b.x[i] ELSE INF]]
              [] b.k = "facet"  -> [lo |-> [i \in 1..3 |-> b.x[i] + Min({b.vert[j][i] : j \in 1..3})], hi |-> [i \in 1..3 |-> b.x[i] + Max({b.vert[j][i] : j \in 1..3})]]
              [] OTHER          -> [lo |-> b.x, hi |-> b.x]
Mk(b) == [k |-> b.k, lo |-> BoxOf(b).lo, hi |-> BoxOf(b).hi, bnd |-> b.bnd, mask |-> b.mask, clump |-> b.clump, isc |-> b.isc, sub |-> b.sub]
Ids == DOMAIN B
Init == l = 1 /\ B = [i \in {} |-> 0] /\ avoid = 0 /\ slack = 0
New(e) == B' = [i \in {} |-> 0] /\ avoid' = e.avoid /\ slack' = e.slack
Put(e) == LET S == {e.bodies[k].id : k \in 1..Len(e.bodies)} IN
          /\ B' = [i \in Ids \cup S |-> IF i \in S THEN Mk(e.bodies[CHOOSE k \in 1..Len(e.bodies) : e.bodies[k].id = i]) ELSE B[i]]
          /\ UNCHANGED <<avoid, slack>>
Erase(e) == B' = [i \in Ids \ ToSet(e.ids) |-> B[i]] /\ UNCHANGED <<avoid, slack>>
Move(e) == LET D == [k \in 1..Len(e.ids) |-> e.ids[k]] IN
           /\ B' = [i \in Ids |-> IF \E k \in DOMAIN D : D[k] = i THEN LET d == e.d[CHOOSE k \in DOMAIN D : D[k] = i] IN [B[i] EXCEPT !.lo = Sh(@, d), !.hi = Sh(@, d)] ELSE B[i]]
           /\ UNCHANGED <<avoid, slack>>
Exact(e) ==
    LET P == ToSet(e.pairs) IN
    /\ Holds("pair listed twice", Cardinality(P) = Len(e.pairs), e.pairs)
    /\ \A i \in Ids : \A j \in {x \in Ids : x > i /\ Overlap(B[i], B[x], 0)} :
          Eligible(B[i], B[j], avoid, 0) => Holds("overlapping boxes not found", <<i, j>> \in P, <<i, j, B[i], B[j]>>)
    /\ \A p \in P : (p[1] \in Ids /\ p[2] \in Ids) => Holds("pair that cannot touch", MaySee(B, p[1], p[2], avoid, 0, slack), <<p, B[p[1]], B[p[2]]>>)
Run(e) == TRUE = Exact(e) /\ UNCHANGED <<B, avoid, slack>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN CASE e.op = "new" -> New(e) [] e.op = "put" -> Put(e) [] e.op = "erase" -> Erase(e)
                                  [] e.op = "move" -> Move(e) [] e.op = "run" -> Run(e)
Spec == Init /\ [][Next]_vars
=============================================================================
