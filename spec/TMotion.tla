------------------------------- MODULE TMotion ------------------------------
(* Recorded motion: at every step the pairs in contact must be exactly the   *)
(* touching ones (invariant Exact of Verlet.tla, for the shapes of the real  *)
(* code).  Coordinates are integers; tol is 0 when they are exact, otherwise *)
(* pairs closer to tangency than rounding are left open.                     *)
EXTENDS TraceLib
VARIABLES l, B, tol
vars == <<l, B, tol>>
Ids == DOMAIN B
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Bit(m, k) == (m \div (2 ^ k)) % 2
Share(a, b) == \E k \in 0..3 : Bit(a, k) = 1 /\ Bit(b, k) = 1
\* -1 apart, 1 touching, 0 left open
Cmp(d2, r) == IF d2 < r * r - 2 * r * tol - tol THEN 1 ELSE IF d2 > r * r + 2 * r * tol + tol THEN -1 ELSE IF tol = 0 THEN 0 ELSE 0
Near(a, x, r) == \A i \in 1..3 : Abs(x[i] - a[i]) <= r
SS(a, b, x, y) == LET r == a.r + b.r IN IF ~Near(x, y, r + tol) THEN -1 ELSE Cmp(Sq([i \in 1..3 |-> x[i] - y[i]]), r)
SW(a, w, x, y) == Cmp((x[w.axis] - y[w.axis]) * (x[w.axis] - y[w.axis]), a.r)
SB(a, b, x, y) == LET q == [i \in 1..3 |-> Clamp(x[i], y[i] - b.ext[i], y[i] + b.ext[i])] IN
                  IF ~Near(x, q, a.r + tol) THEN -1 ELSE Cmp(Sq([i \in 1..3 |-> x[i] - q[i]]), a.r)
\* right triangle with legs along axes b and c (lengths lb, lc, both positive) in the plane of axis n; y is the corner
SF(a, f, x, y) == LET u == x[f.b] - y[f.b]  v == x[f.c] - y[f.c]  w == Abs(x[f.n] - y[f.n]) IN
                  IF w > a.r \/ u < -a.r \/ v < -a.r \/ u > f.lb + a.r \/ v > f.lc + a.r THEN -1
                  ELSE IF w < a.r /\ u > 0 /\ v > 0 /\ u * f.lc + v * f.lb < f.lb * f.lc THEN 1 ELSE 0
Contact(i, j, P) == LET a == B[i]  b == B[j]  x == P[i]  y == P[j] IN
     IF ~Share(a.mask, b.mask) \/ (a.clump # -1 /\ a.clump = b.clump) \/ a.k = "none" \/ b.k = "none" THEN -1
     ELSE CASE a.k = "sphere" /\ b.k = "sphere" -> SS(a, b, x, y)
            [] a.k = "sphere" /\ b.k = "wall" -> SW(a, b, x, y)   [] a.k = "wall" /\ b.k = "sphere" -> SW(b, a, y, x)
            [] a.k = "sphere" /\ b.k = "box" -> SB(a, b, x, y)    [] a.k = "box" /\ b.k = "sphere" -> SB(b, a, y, x)
            [] a.k = "sphere" /\ b.k = "facet" -> SF(a, b, x, y)  [] a.k = "facet" /\ b.k = "sphere" -> SF(b, a, y, x)
            [] OTHER -> -1
StepOK(e) ==
  LET P == [i \in Ids |-> e.pos[CHOOSE k \in 1..Len(e.pos) : e.pos[k][1] = i][2]]
      R == ToSet(e.real)
  IN /\ Holds("bodies recorded", {e.pos[k][1] : k \in 1..Len(e.pos)} = Ids, e.pos)
     /\ Holds("contact of absent bodies", \A p \in R : p[1] \in Ids /\ p[2] \in Ids, R)
     /\ \A i \in Ids : \A j \in {x \in Ids : x > i} :
          LET c == Contact(i, j, P) IN
          /\ (c = 1) => Holds("touching bodies not in contact", <<i, j>> \in R, <<i, j, B[i], B[j], P[i], P[j]>>)
          /\ (c = -1) => Holds("contact of bodies that do not touch", <<i, j>> \notin R, <<i, j, B[i], B[j], P[i], P[j]>>)
Init == l = 1 /\ B = [i \in {} |-> 0] /\ tol = 0
Put(e) == LET S == {e.bodies[k].id : k \in 1..Len(e.bodies)} IN
          B' = [i \in Ids \cup S |-> IF i \in S THEN e.bodies[CHOOSE k \in 1..Len(e.bodies) : e.bodies[k].id = i] ELSE B[i]] /\ UNCHANGED tol
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new" -> B' = [i \in {} |-> 0] /\ tol' = e.tol
             [] e.op = "put" -> Put(e)
             [] e.op = "erase" -> B' = [i \in Ids \ ToSet(e.ids) |-> B[i]] /\ UNCHANGED tol
             [] e.op = "step" -> TRUE = StepOK(e) /\ UNCHANGED <<B, tol>>
Spec == Init /\ [][Next]_vars
=============================================================================
