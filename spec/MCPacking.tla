----------------------------- MODULE MCPacking ------------------------------
(* A packing under all sequences of the operations it supports.              *)
EXTENDS Packing
CONSTANTS Depth
VARIABLES p, base, grown, steps
vars == <<p, base, grown, steps>>
S1 == [c |-> <<32, 32, 32>>, r |-> 32, k |-> 0]
S2 == [c |-> <<96, 32, 64>>, r |-> 64, k |-> 0]
S3 == [c |-> <<160, 96, 32>>, r |-> 32, k |-> -1]
Starts == {[s |-> <<S1, S3>>, cell |-> <<256, 128, 128>>, peri |-> TRUE], [s |-> <<S1, S2, S3>>, cell |-> ZV, peri |-> FALSE], [s |-> <<S1, S2, S3, [S1 EXCEPT !.k = 3, !.c = <<0, 0, 160>>], [S3 EXCEPT !.k = 3]>>, cell |-> <<256, 192, 256>>, peri |-> TRUE]}
Init == p \in Starts /\ base = p /\ grown = 1 /\ steps = 0
Copied(q, n) == LET c == SetToSeq(Copies(q, n) \ {ZV})  M == 1 + Most({q.s[j].k : j \in DOMAIN q.s}) IN
  [s |-> q.s \o FoldLeft(LAMBDA a, b : a \o b, <<>>, [m \in DOMAIN c |-> [j \in DOMAIN q.s |-> [c |-> Add(q.s[j].c, Offset(q, c[m])), r |-> q.s[j].r, k |-> IF q.s[j].k < 0 THEN -1 ELSE q.s[j].k + M * m]]]),
   cell |-> [i \in 1..3 |-> q.cell[i] * n[i]], peri |-> q.peri]
Translate == \E v \in {<<32, 0, -32>>, <<-64, 64, 0>>} : p' = Moved(p, v)
Scale == \E s \in {<<2, 1>>, <<-1, 1>>, <<1, 2>>} : p' = Scaled(p, s[1], s[2])
Rotate == \E a \in 1..3, n \in 1..3 : p' = Turned(p, a, n)
Repeat == p.cell # ZV /\ Len(p.s) <= 5 /\ \E n \in {<<1, 2, 1>>, <<2, 1, 2>>} : Repeated(p, Copied(p, n), n) /\ p' = Copied(p, n)
Next == /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED base
        /\ \/ (Translate \/ Scale \/ Rotate) /\ grown' = grown
           \/ Repeat /\ grown' = Len(p'.s) \div Len(base.s)
Spec == Init /\ [][Next]_vars
\* which spheres belong together never changes
Together == \A i \in DOMAIN base.s, j \in DOMAIN base.s : (p.s[i].k = p.s[j].k /\ p.s[i].k >= 0) <=> (base.s[i].k = base.s[j].k /\ base.s[i].k >= 0)
Count == Len(p.s) = grown * Len(base.s) /\ Len(Clumps(p)) = grown * Len(Clumps(base)) /\ Len(Singles(p)) = grown * Len(Singles(base))
\* proportions stay: all radii by one factor
Ratio == \A i \in DOMAIN base.s, j \in DOMAIN base.s : p.s[i].r * base.s[j].r = p.s[j].r * base.s[i].r
Shape == \A i \in DOMAIN base.s, j \in DOMAIN base.s : i < j => Sq(Sub(p.s[i].c, p.s[j].c)) * 64 = Sq(Sub(base.s[i].c, base.s[j].c)) * ((p.s[1].r * p.s[1].r * 64) \div (base.s[1].r * base.s[1].r))
Small == \A i \in DOMAIN p.s : p.s[i].r \in 8..128
=============================================================================
