----------------------------- MODULE TPeriodic ------------------------------
(* recorded runs of collision detection and contact creation in periodic space *)
EXTENDS Periodic, TraceLib
VARIABLES l, h, ortho, slack, X, prev
vars == <<l, h, ortho, slack, X, prev>>
Ids == DOMAIN X
Ext(b) == IF b.k = "sphere" THEN <<b.r, b.r, b.r>> ELSE b.ext
Mk(b) == [x |-> b.x, e |-> Ext(b), k |-> b.k, mask |-> b.mask, r |-> b.r]
Init == l = 1 /\ h = <<>> /\ ortho = TRUE /\ slack = 0 /\ X = [i \in {} |-> 0] /\ prev = [p \in {} |-> 0]
Common(a, b) == \E q \in {1, 2, 4} : (a \div q) % 2 = 1 /\ (b \div q) % 2 = 1
New(e) == h' = e.h /\ ortho' = e.ortho /\ slack' = e.slack /\ X' = [i \in {} |-> 0] /\ prev' = [p \in {} |-> 0]
Put(e) == LET S == {e.bodies[k].id : k \in 1..Len(e.bodies)} IN
          /\ X' = [i \in Ids \cup S |-> IF i \in S THEN Mk(e.bodies[CHOOSE k \in 1..Len(e.bodies) : e.bodies[k].id = i]) ELSE X[i]]
          /\ UNCHANGED <<h, ortho, slack, prev>>
Move(e) == /\ X' = [i \in Ids |-> IF i \in ToSet(e.ids) THEN LET d == e.d[CHOOSE k \in 1..Len(e.ids) : e.ids[k] = i] IN [X[i] EXCEPT !.x = [a \in 1..3 |-> @[a] + d[a]]] ELSE X[i]]
           /\ UNCHANGED <<h, ortho, slack, prev>>
Erase(e) == X' = [i \in Ids \ {e.id} |-> X[i]] /\ prev' = [p \in {q \in DOMAIN prev : e.id \notin {q[1], q[2]}} |-> prev[p]] /\ UNCHANGED <<h, ortho, slack>>
\* the shifts that bring box j onto box i
Shifts(i, j, op(_, _, _, _, _)) == LET f(a) == op(X[i].x[a], X[i].e[a], X[j].x[a], X[j].e[a], h[a][a]) IN {<<a, b, c>> : a \in f(1), b \in f(2), c \in f(3)}
Grown(i, j) == LET f(a) == Touch1(X[i].x[a], X[i].e[a] + slack, X[j].x[a], X[j].e[a] + slack, h[a][a]) IN {<<a, b, c>> : a \in f(1), b \in f(2), c \in f(3)}
Balls(i, j) == X[i].k = "sphere" /\ X[j].k = "sphere"
Rsum2(i, j) == (X[i].r + X[j].r) * (X[i].r + X[j].r)
Cells == IF ortho THEN {} ELSE {<<a, b, c>> : a \in Win, b \in Win, c \in Win}
\* shifts through which spheres i and j touch
Meets(i, j) == IF ortho THEN {s \in Shifts(i, j, Over1) : Dist2(h, X[i].x, X[j].x, s) < Rsum2(i, j)}
               ELSE {s \in Cells : Dist2(h, X[i].x, X[j].x, s) < Rsum2(i, j)}
Neg(s) == <<-s[1], -s[2], -s[3]>>
Ok(e) ==
    LET N == Len(e.intrs)
        P == {{e.intrs[k].id1, e.intrs[k].id2} : k \in 1..N}
        K(i, j) == CHOOSE k \in 1..N : {e.intrs[k].id1, e.intrs[k].id2} = {i, j}
        \* the shift of j relative to i as recorded
        S(i, j) == LET q == e.intrs[K(i, j)] IN IF q.id1 = i THEN q.cd ELSE Neg(q.cd)
        \* a body that jumped so far that it meets another image of a pair already listed is outside the claim
        Jumped(i, j, sh) == <<i, j>> \in DOMAIN prev /\ prev[<<i, j>>].cd \notin sh
    IN
    /\ Holds("pair listed twice", Cardinality(P) = N, e.intrs)
    /\ \A i \in Ids : \A j \in {x \in Ids : x > i /\ Common(X[x].mask, X[i].mask)} :
         LET bx == IF ortho THEN Shifts(i, j, Over1) ELSE {}
             m == IF Balls(i, j) THEN Meets(i, j) ELSE {} IN
         /\ (bx # {}) => /\ Holds("overlapping boxes not found", {i, j} \in P, <<i, j, X[i], X[j], h>>)
                         /\ Jumped(i, j, bx) \/ Holds("wrong image", S(i, j) \in bx, <<i, j, S(i, j), bx, X[i], X[j]>>)
         /\ (m # {} /\ e.loop) => \/ Jumped(i, j, m)
                      \/ /\ Holds("contact not found", {i, j} \in P, <<i, j, m, X[i], X[j], h>>)
                         /\ Holds("contact not made or through a wrong image", e.intrs[K(i, j)].real /\ S(i, j) \in m, <<i, j, e.intrs[K(i, j)], m>>)
    /\ \A k \in 1..N : LET q == e.intrs[k] IN (q.id1 \in Ids /\ q.id2 \in Ids) =>
         /\ Holds("pair excluded by mask", Common(X[q.id1].mask, X[q.id2].mask), q)
         /\ q.real => Holds("contact of bodies that do not touch", Balls(q.id1, q.id2) /\ Dist2(h, X[q.id1].x, X[q.id2].x, q.cd) <= Rsum2(q.id1, q.id2), <<q, X[q.id1], X[q.id2]>>)
         /\ (~q.real /\ ortho /\ ~(<<q.id1, q.id2>> \in DOMAIN prev /\ prev[<<q.id1, q.id2>>].real)) => Holds("pair listed that is apart", Grown(q.id1, q.id2) # {}, <<q, X[q.id1], X[q.id2]>>)
Run(e) == /\ TRUE = Ok(e)
          /\ prev' = [p \in UNION {{<<e.intrs[k].id1, e.intrs[k].id2>>, <<e.intrs[k].id2, e.intrs[k].id1>>} : k \in 1..Len(e.intrs)} |->
                        LET k == CHOOSE k \in 1..Len(e.intrs) : {e.intrs[k].id1, e.intrs[k].id2} = {p[1], p[2]} IN
                        [cd |-> IF e.intrs[k].id1 = p[1] THEN e.intrs[k].cd ELSE Neg(e.intrs[k].cd), real |-> e.intrs[k].real]]
          /\ UNCHANGED <<h, ortho, slack, X>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN CASE e.op = "new" -> New(e) [] e.op = "put" -> Put(e) [] e.op = "erase" -> Erase(e) [] e.op = "move" -> Move(e) [] e.op = "run" -> Run(e)
Spec == Init /\ [][Next]_vars
=============================================================================
