------------------------------ MODULE Periodic ------------------------------
(* Periodic space.  h is the matrix of cell vectors (h[c] = c-th vector).    *)
(* A pair (i, j) meets through the image of j shifted by s whole cells.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Img(h, x, s) == [a \in 1..3 |-> x[a] + s[1] * h[1][a] + s[2] * h[2][a] + s[3] * h[3][a]]
Sq(d) == d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
Diff(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Dist2(h, x, y, s) == Sq(Diff(Img(h, y, s), x))
\* orthogonal cells: on one axis, intervals [x-p,x+p] and [y-q,y+q] with period L: the shifts with (strict) overlap
Fl(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
Near1(x, y, L) == {Fl(x - y, L) + d : d \in {-1, 0, 1, 2}}
Over1(x, p, y, q, L) == {s \in Near1(x, y, L) : LET d == y + s * L - x IN -(p + q) < d /\ d < p + q}
Touch1(x, p, y, q, L) == {s \in Near1(x, y, L) : LET d == y + s * L - x IN -(p + q) <= d /\ d <= p + q}
\* all whole-cell shifts of a general cell that can bring y near x (window around the rounded inverse image)
Win == -3..3
=============================================================================
