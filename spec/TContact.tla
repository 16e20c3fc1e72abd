------------------------------ MODULE TContact ------------------------------
(* Geometry of contacts, elastic law and action = reaction on recorded steps.*)
(* Positions and sizes of "geom" events are integers; real quantities are    *)
(* logged as integers: penetration, contact points, stiffnesses x100,        *)
(* normals x1000, forces x10, torques x10.                                   *)
EXTENDS TraceLib
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Min2(a, b) == IF a < b THEN a ELSE b
(* nearest point of the first shape to the centre s of the sphere; "open" where its coordinates are not halves of integers *)
InsideBox(b, s) == \A i \in 1..3 : Abs(s[i] - b.x[i]) <= b.ext[i]
Gap(b, s, i) == b.ext[i] - Abs(s[i] - b.x[i])
FacetQ(f, s) == LET u == s[f.b] - f.x[f.b]  v == s[f.c] - f.x[f.c]
                    P(p, q) == [i \in 1..3 |-> 2 * f.x[i] + (IF i = f.b THEN p ELSE IF i = f.c THEN q ELSE 0)]
                    Y(p, q) == [ok |-> TRUE, q |-> P(p, q)]
                IN IF u > 0 /\ v > 0 /\ u * f.lc + v * f.lb < f.lb * f.lc THEN Y(2 * u, 2 * v)
                   ELSE IF u <= 0 /\ v <= 0 THEN Y(0, 0)
                   ELSE IF u < 0 /\ v > 0 /\ v < f.lc THEN Y(0, 2 * v)
                   ELSE IF v < 0 /\ u > 0 /\ u < f.lb THEN Y(2 * u, 0)
                   ELSE IF (u >= f.lb /\ v <= 0) \/ (v > 0 /\ v * f.lc <= (u - f.lb) * f.lb) THEN Y(2 * f.lb, 0)
                   ELSE IF (v >= f.lc /\ u <= 0) \/ (u > 0 /\ u * f.lb <= (v - f.lc) * f.lc) THEN Y(0, 2 * f.lc)
                   ELSE IF f.lb = f.lc /\ u > 0 /\ v > 0 THEN Y(u - v + f.lb, v - u + f.lb)
                   ELSE [ok |-> FALSE, q |-> s]
Twice(v) == [i \in 1..3 |-> 2 * v[i]]
\* q: twice the nearest point
Nearest(a, s) == CASE a.k = "sphere" -> [ok |-> TRUE, q |-> Twice(a.x)]
                   [] a.k = "wall" -> [ok |-> TRUE, q |-> [i \in 1..3 |-> IF i = a.axis THEN 2 * a.x[i] ELSE 2 * s[i]]]
                   [] a.k = "box" -> [ok |-> TRUE, q |-> [i \in 1..3 |-> 2 * Clamp(s[i], a.x[i] - a.ext[i], a.x[i] + a.ext[i])]]
                   [] a.k = "facet" -> FacetQ(a, s)
\* contact c of shape a with sphere b, centre of b (through the image of the contact) s
Outside(a, b, s, c, q) ==
  LET D == Sub(Twice(s), q)  R == b.r + (IF a.k = "sphere" THEN a.r ELSE 0)  d == 100 * R - c.un
  IN /\ Holds("penetration", Abs(d * d - 2500 * Sq(D)) <= 2 * d + 2, <<a, b, c>>)
     /\ \A i \in 1..3 : Holds("normal", Abs(c.n[i] * d - D[i] * 50000) <= d + 1000, <<a, b, c>>)
     /\ \A i \in 1..3 : Holds("contact point", IF a.k = "wall" THEN Abs(c.cp[i] - 50 * q[i]) <= 1
                                               ELSE Abs(1000 * c.cp[i] - 100000 * s[i] + (100 * b.r - c.un \div 2) * c.n[i]) <= 2500 + 50 * b.r, <<a, b, c>>)
InBox(a, b, s, c) ==
  LET m == CHOOSE i \in 1..3 : \A j \in 1..3 : Gap(a, s, i) <= Gap(a, s, j)
      one == \A j \in 1..3 : j # m => Gap(a, s, j) > Gap(a, s, m)
  IN IF ~one \/ s[m] = a.x[m] THEN TRUE
     ELSE /\ Holds("penetration (centre inside)", Abs(c.un - 100 * (b.r + Gap(a, s, m))) <= 1, <<a, b, c>>)
          /\ Holds("normal (centre inside)", c.n = [i \in 1..3 |-> IF i = m THEN (IF s[i] > a.x[i] THEN 1000 ELSE -1000) ELSE 0], <<a, b, c>>)
          /\ \A i \in 1..3 : Holds("contact point (centre inside)", Abs(1000 * c.cp[i] - 100000 * s[i] + (100 * b.r - c.un \div 2) * c.n[i]) <= 2500, <<a, b, c>>)
Geom(a, b, s, c) ==
  LET N == Nearest(a, s) IN
  IF ~N.ok \/ (N.q = Twice(s) /\ a.k # "box") THEN TRUE
  ELSE IF a.k = "box" /\ InsideBox(a, s) THEN (N.q = Twice(s) /\ \E i \in 1..3 : Gap(a, s, i) = 0) \/ InBox(a, b, s, c)
  ELSE Outside(a, b, s, c, N.q)
\* stiffness: half the harmonic mean; the partner of a sphere counts as a sphere of the same size (facet: twice)
RefR(a, b) == CASE a.k = "sphere" -> a.r [] a.k = "facet" -> 2 * b.r [] OTHER -> b.r
Stiff(a, b, c) ==
  LET p == a.E * RefR(a, b)  q == b.E * b.r  p2 == p * a.nu  q2 == q * b.nu IN
  /\ Holds("normal stiffness", Abs(c.kn * (p + q) - 200 * p * q) <= p + q, <<a, b, c>>)
  /\ Holds("shear stiffness", Abs(c.ks * (p2 + q2) * 10 - 200 * p2 * q2) <= 10 * (p2 + q2), <<a, b, c>>)
  /\ Holds("friction coefficient", Abs(c.mu - Min2(a.mu, b.mu)) <= 1, <<a, b, c>>)
\* forces of one contact: normal part along the normal, none when open
Law(c) ==
  LET f == (c.kn * (IF c.un > 0 THEN c.un ELSE 0)) \div 1000 IN
  \A i \in 1..3 : Holds("normal force", Abs(c.fn[i] * 1000 - f * c.n[i]) <= 10 * c.kn + Abs(f) * 2 + 3000, c)
Coulomb(c) == LET m == (c.mu * c.fnn) \div 1000 IN Holds("shear force within the Coulomb limit", c.fsn <= m + 2 + m \div 300, c)
\* every body: force and torque are those of its contacts; x is 100 times the position, of the image for the second body
Sum(i, e) == FoldLeft(LAMBDA s, c : IF c.id1 = i THEN [k \in 1..3 |-> s[k] - c.fn[k] - c.fs[k]] ELSE IF c.id2 = i THEN [k \in 1..3 |-> s[k] + c.fn[k] + c.fs[k]] ELSE s, <<0, 0, 0>>, e.contacts)
Num(i, e) == Cardinality({k \in 1..Len(e.contacts) : e.contacts[k].id1 = i \/ e.contacts[k].id2 = i})
Arm(c, i, e) == LET x == e.b[IF c.id1 = i THEN c.p1 ELSE c.p2].x IN [k \in 1..3 |-> c.cp[k] - x[k] - (IF c.id2 = i THEN 100 * c.shift[k] ELSE 0)]
Tor(i, e) == FoldLeft(LAMBDA s, c : IF c.id1 = i \/ c.id2 = i
                                    THEN LET f == [k \in 1..3 |-> (IF c.id1 = i THEN -1 ELSE 1) * (c.fn[k] + c.fs[k])]  t == Cross(Arm(c, i, e), f)
                                         IN [k \in 1..3 |-> s[k] + t[k]] ELSE s, <<0, 0, 0>>, e.contacts)
Big(i, e) == FoldLeft(LAMBDA s, c : IF c.id1 = i \/ c.id2 = i THEN s + Abs(c.fn[1]) + Abs(c.fn[2]) + Abs(c.fn[3]) + Abs(c.fs[1]) + Abs(c.fs[2]) + Abs(c.fs[3]) + 3 * (Abs(Arm(c, i, e)[1]) + Abs(Arm(c, i, e)[2]) + Abs(Arm(c, i, e)[3])) ELSE s, 0, e.contacts)
Balance(e) ==
  /\ \A k \in 1..Len(e.b) : LET i == e.b[k].id IN
       /\ \A a \in 1..3 : Holds("force on body " \o ToString(i) \o " axis " \o ToString(a), Abs(e.b[k].f[a] - Sum(i, e)[a]) <= Num(i, e) + 1, <<e.b[k], Sum(i, e)>>)
       /\ e.torque => \A a \in 1..3 : Holds("torque on body " \o ToString(i) \o " axis " \o ToString(a), Abs(100 * e.b[k].t[a] - Tor(i, e)[a]) <= 100 + 3 * Big(i, e), <<e.b[k], Tor(i, e), e.contacts>>)
  /\ Holds("total force", \A a \in 1..3 : Abs(FoldLeft(LAMBDA s, b : s + b.f[a], 0, e.b)) <= Len(e.b) + 1, e.b)
GeomEv(e) == \A k \in 1..Len(e.contacts) : LET c == e.contacts[k]  a == e.b[c.p1]  b == e.b[c.p2] IN
              /\ Holds("the sphere comes second", b.k = "sphere", <<a, b>>)
              /\ Geom(a, b, [i \in 1..3 |-> b.x[i] + c.shift[i]], c)
LawEv(e) == \A k \in 1..Len(e.contacts) : LET c == e.contacts[k]  a == e.b[c.p1]  b == e.b[c.p2] IN
              Stiff(a, b, c) /\ Law(c) /\ Coulomb(c)
\* without a periodic cell, a sphere and another shape touch exactly when the nearest point is closer than the radius
Touch(a, b) == LET N == Nearest(a, b.x)  R == b.r + (IF a.k = "sphere" THEN a.r ELSE 0)  q == Sq(Sub(Twice(b.x), N.q)) IN
               IF ~N.ok \/ (N.q = Twice(b.x) /\ a.k # "box") \/ q = 4 * R * R THEN "open" ELSE IF q < 4 * R * R THEN "yes" ELSE "no"
Listed(e, a, b) == \E k \in 1..Len(e.contacts) : e.contacts[k].id1 = a.id /\ e.contacts[k].id2 = b.id
Exist(e) == \A p, q \in 1..Len(e.b) : LET a == e.b[p]  b == e.b[q] IN
              (b.k = "sphere" /\ (a.k # "sphere" \/ p < q))
                => LET t == Touch(a, b)  c == Listed(e, a, b) \/ (a.k = "sphere" /\ Listed(e, b, a)) IN Holds("touching", t = "open" \/ c = (t = "yes"), <<a, b, c>>)
\* in an orthogonal periodic cell, positions within the cell: the same for the images next to it
Im(b, k, L) == [b EXCEPT !.x = [i \in 1..3 |-> b.x[i] + k[i] * L[i]]]
Offs == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1}
ListedAt(e, a, b, sh) == \E k \in 1..Len(e.contacts) : LET c == e.contacts[k] IN
                          \/ c.id1 = a.id /\ c.id2 = b.id /\ c.shift = sh
                          \/ a.k = "sphere" /\ c.id1 = b.id /\ c.id2 = a.id /\ c.shift = [i \in 1..3 |-> -sh[i]]
ExistPeri(e) == \A p, q \in 1..Len(e.b) : LET a == e.b[p]  b == e.b[q] IN
              (b.k = "sphere" /\ (a.k # "sphere" \/ p < q))
                => \A k \in Offs : LET t == Touch(a, Im(b, k, e.L)) IN t = "yes" => Holds("touching through an image", ListedAt(e, a, b, [i \in 1..3 |-> k[i] * e.L[i]]), <<a, b, k>>)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN CASE e.op = "new" -> TRUE
                                  [] e.op = "geom" -> TRUE = (GeomEv(e) /\ (e.free => Exist(e)) /\ (e.L # <<>> => ExistPeri(e)))
                                  [] e.op = "law" -> TRUE = (LawEv(e) /\ Balance(e))
Spec == Init /\ [][Next]_l
=============================================================================
