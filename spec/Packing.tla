------------------------------ MODULE Packing ------------------------------
(* A packing: a sequence of spheres [c, r, k] (k: number of the clump it      *)
(* belongs to, -1 for none), the size of its periodic cell (zero if it has    *)
(* none), and whether it is periodic.                                        *)
EXTENDS Region, FiniteSets, SequencesExt, FiniteSetsExt
ZV == <<0, 0, 0>>
Empty == [s |-> <<>>, cell |-> ZV, peri |-> FALSE]
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
Lo(p) == [i \in 1..3 |-> Least({p.s[j].c[i] - p.s[j].r : j \in DOMAIN p.s})]
Hi(p) == [i \in 1..3 |-> Most({p.s[j].c[i] + p.s[j].r : j \in DOMAIN p.s})]
Mid2(p) == Add(Lo(p), Hi(p))            \* twice the centre
Listed(l) == [s |-> l, cell |-> ZV, peri |-> FALSE]
Added(p, c, r) == [p EXCEPT !.s = Append(@, [c |-> c, r |-> r, k |-> -1])]
Moved(p, v) == [p EXCEPT !.s = [j \in DOMAIN @ |-> [@[j] EXCEPT !.c = Add(@, v)]]]
\* all lengths by a / b about the centre
Scaled(p, a, b) == LET m == Mid2(p) IN
  [s |-> [j \in DOMAIN p.s |-> [c |-> [i \in 1..3 |-> (a * (2 * p.s[j].c[i] - m[i]) + b * m[i]) \div (2 * b)], r |-> (p.s[j].r * Abs(a)) \div b, k |-> p.s[j].k]],
   cell |-> [i \in 1..3 |-> (p.cell[i] * Abs(a)) \div b], peri |-> p.peri]
\* n quarter turns about an axis
RECURSIVE Turn(_, _, _)
Turn(v, a, n) == IF n = 0 THEN v ELSE LET w == CASE a = 1 -> <<v[1], -v[3], v[2]>> [] a = 2 -> <<v[3], v[2], -v[1]>> [] a = 3 -> <<-v[2], v[1], v[3]>> IN Turn(w, a, n - 1)
Turned(p, a, n) == LET m == Mid2(p) IN
  [s |-> [j \in DOMAIN p.s |-> [p.s[j] EXCEPT !.c = LET d == Turn(Sub(Mul(@, 2), m), a, n) IN [i \in 1..3 |-> (d[i] + m[i]) \div 2]]], cell |-> ZV, peri |-> p.peri]
\* spheres of every copy of the cell, clump numbers aside
Copies(p, n) == {<<x, y, z>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1), z \in 0..(n[3] - 1)}
Offset(p, c) == [i \in 1..3 |-> p.cell[i] * c[i]]
Repeated(p, q, n) ==
  /\ q.cell = [i \in 1..3 |-> p.cell[i] * n[i]] /\ q.peri = p.peri
  /\ Len(q.s) = Len(p.s) * n[1] * n[2] * n[3]
  /\ SubSeq(q.s, 1, Len(p.s)) = p.s
  \* each copy is the original moved, its clumps being clumps of its own
  /\ \A c \in Copies(p, n) : \E f \in {[j \in DOMAIN p.s |-> b * Len(p.s) + j] : b \in 0..(n[1] * n[2] * n[3] - 1)} :
       \A j \in DOMAIN p.s : q.s[f[j]].c = Add(p.s[j].c, Offset(p, c)) /\ q.s[f[j]].r = p.s[j].r /\ (q.s[f[j]].k < 0 <=> p.s[j].k < 0)
  /\ \A i \in DOMAIN q.s, j \in DOMAIN q.s : i < j /\ q.s[i].k >= 0 =>
       (q.s[i].k = q.s[j].k <=> (i - 1) \div Len(p.s) = (j - 1) \div Len(p.s) /\ p.s[((i - 1) % Len(p.s)) + 1].k = p.s[((j - 1) % Len(p.s)) + 1].k)
Needed(p, v) == [i \in 1..3 |-> (v[i] + p.cell[i] - 1) \div p.cell[i]]
Clumps(p) == LET K == SetToSortSeq({p.s[j].k : j \in {i \in DOMAIN p.s : p.s[i].k >= 0}}, <) IN
  [n \in DOMAIN K |-> SelectSeq([j \in DOMAIN p.s |-> j - 1], LAMBDA j : p.s[j + 1].k = K[n])]
Singles(p) == SelectSeq([j \in DOMAIN p.s |-> j - 1], LAMBDA j : p.s[j + 1].k < 0)
Cubes(p) == FoldSet(LAMBDA j, a : a + p.s[j].r * p.s[j].r * p.s[j].r, 0, DOMAIN p.s)
\* ---- random packings -----------------------------------------------------
\* base vectors h of the cell; images one cell away in every direction
Images(h) == {Add(Add(Mul(h[1], x), Mul(h[2], y)), Mul(h[3], z)) : x \in -1..1, y \in -1..1, z \in -1..1}
Apart(a, b, sh, t) == LET d == Sub(Add(a.c, sh), b.c)  m == a.r + b.r - t IN
  (\E i \in 1..3 : Abs(d[i]) >= m) \/ Dot(d, d) >= m * m
Clear(s, S) == \A i \in DOMAIN s, j \in DOMAIN s : i < j => \A sh \in S : Apart(s[i], s[j], sh, 3)
Within(s, lo, hi, t) == \A i \in DOMAIN s, k \in 1..3 : IF lo[k] = hi[k] THEN Abs(s[i].c[k] - lo[k]) <= t ELSE s[i].c[k] - s[i].r >= lo[k] - t /\ s[i].c[k] + s[i].r <= hi[k] + t
Decreasing(s) == \A i \in 1..(Len(s) - 1) : s[i].r >= s[i + 1].r - 1
\* clumps are copies of one of the templates
Copy(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Abs(s[i].r - t[i].r) <= 1 /\ \A j \in DOMAIN s : i < j =>
    LET d == Sub(s[i].c, s[j].c)  e == Sub(t[i].c, t[j].c) IN Abs(Norm(d) - Norm(e)) <= 4
=============================================================================
