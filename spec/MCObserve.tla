----------------------------- MODULE MCObserve ------------------------------
(* Small scenes: joining, releasing and erasing bodies, and what the totals   *)
(* then are.                                                                 *)
EXTENDS Observe
CONSTANTS Ids, Speeds, Clump
VARIABLES bodies, force
vars == <<bodies, force>>
New(i, s) == [id |-> i, m |-> i, v |-> <<s, 0, 0>>, p |-> <<i, 0, i>>, L |-> Z3, member |-> FALSE, dyn |-> TRUE, r |-> 1, mask |-> <<0>>]
Seqs(S) == SetToSeq(S)
B == Seqs(bodies)
ClumpOf(M, s) == [New(Clump, s) EXCEPT !.m = FoldSet(LAMBDA b, a : a + b.m, 0, M), !.r = 0]
Init == force \in [1..2 -> {0, 3}] /\ bodies \in {S \in SUBSET {New(i, s) : i \in Ids, s \in Speeds} : \A a, b \in S : a.id = b.id => a = b}
Join(M, s) == /\ Cardinality(M) >= 2 /\ \A b \in bodies : b.id # Clump
              /\ bodies' = (bodies \ M) \cup {[b EXCEPT !.member = TRUE, !.v = <<s, 0, 0>>] : b \in M} \cup {ClumpOf(M, s)}
Release == /\ \E c \in bodies : c.id = Clump
           /\ bodies' = {[b EXCEPT !.member = FALSE] : b \in {c \in bodies : c.id # Clump}}
Erase(b) == b.id # Clump /\ ~b.member /\ bodies' = bodies \ {b}
Next == UNCHANGED force /\ ((\E M \in SUBSET {b \in bodies : ~b.member}, s \in Speeds : Join(M, s)) \/ Release \/ \E b \in bodies : Erase(b))
Spec == Init /\ [][Next]_vars
\* a clump counts for what its members are
Single == SelectSeq(B, LAMBDA b : b.id # Clump)
Counted == Momentum(B) = SumVec([k \in DOMAIN Single |-> Mul(Single[k].v, Single[k].m)])
Trace0 == DynStress(B, <<Z3, Z3, Z3>>)
NotTension == \A i \in 1..3 : Trace0[i][i] <= 0
\* stress does not depend on which body of a contact is named first
Pair(a, b, f, s) == <<[id1 |-> a, id2 |-> b, fn |-> f, fs |-> Z3, sh |-> s]>>
Places == [i \in Ids |-> <<i, 2 * i, 0>>]
Symmetric == \A a, b \in Ids : LET f == <<force[1], force[2], 1>>  s == <<force[1], 0, 2>> IN
  Stress(Pair(a, b, f, s), Places) = Stress(Pair(b, a, Mul(f, -1), Mul(s, -1)), Places)
  /\ (a # b => AcrossPlane(Pair(a, b, f, Z3), Places, <<1, 0, 0>>, <<2, 1, 0>>) \in {AcrossPlane(Pair(b, a, Mul(f, -1), Z3), Places, <<1, 0, 0>>, <<2, 1, 0>>), Mul(f, -1), f})
ReleaseKeeps == [][(\E c \in bodies : c.id = Clump) /\ Cardinality(bodies') < Cardinality(bodies) /\ (\A c \in bodies' : c.id # Clump) => Momentum(Seqs(bodies')) = Momentum(B)]_vars
=============================================================================
