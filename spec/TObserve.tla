------------------------------ MODULE TObserve ------------------------------
(* Recorded observations of the real code against Observe.tla.               *)
EXTENDS Observe, TraceLib
VARIABLES l
vars == <<l>>
Pos(B) == [i \in {B[k].id : k \in DOMAIN B} |-> B[CHOOSE k \in DOMAIN B : B[k].id = i].p]
Body(B, i) == B[CHOOSE k \in DOMAIN B : B[k].id = i]
Rad(B) == [i \in {B[k].id : k \in DOMAIN B} |-> Body(B, i).r]
Ids(S) == {S[k].id : k \in DOMAIN S}
Close(a, b, t) == Abs(a - b) <= t
CloseV(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
CloseT(a, b, t) == \A i \in 1..3 : CloseV(a[i], b[i], t)
\* twice the energy of one body, x1000
Energy(e, b) == LET u == IF e.peri THEN Fluct(b, Sub(b.p, b.v), e.G) ELSE b.v
                    w == IF e.peri THEN Sub(b.w, e.spin) ELSE b.w
                    q == IF b.asph THEN [i \in 1..3 |-> Dot(b.R[i], w)] ELSE Mul(w, 1000) IN
                1000 * b.m * Dot(u, u) + SumInt([i \in 1..3 |-> (b.I[i] * ((q[i] * q[i]) \div 100)) \div 10])
Kinetic(e) == LET T == Moving(e.B) IN [k \in DOMAIN T |-> Energy(e, T[k])]
Most(S) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, S)
\* sum of forces on a body, gravity included
Resultant(e, b) == LET M == IF b.clump /\ b.f = Z3 THEN SelectSeq(e.B, LAMBDA c : c.id \in Bits(b.members)) ELSE <<>> IN
  Add(Add(b.f, SumVec([k \in DOMAIN M |-> M[k].f])), Mul(e.g, b.m))
N100(v) == Norm(Mul(v, 20))     \* norm x20
Unbalanced(e, most) ==
  LET T == Moving(e.B)  F == [k \in DOMAIN T |-> N100(Resultant(e, T[k]))]
      D == SumInt([k \in DOMAIN e.C |-> N100(Force(e.C[k]))])
      up == IF most THEN Most(F) * Len(T) ELSE SumInt(F)
  IN <<up * Len(e.C), D * Len(T)>>
\* a / b x1000 without leaving the integers
Per1000(a, b) == LET s == IF a > 2000000 \/ b > 2000000 THEN 100 ELSE 1 IN ((a \div s) * 1000) \div (b \div s)
Box(B) == LET S == Spheres(B, <<>>) IN
  [lo |-> [i \in 1..3 |-> -Most([k \in DOMAIN S |-> 1000 - S[k].p[i] + S[k].r]) + 1000], hi |-> [i \in 1..3 |-> Most([k \in DOMAIN S |-> 1000 + S[k].p[i] + S[k].r]) - 1000]]
Span(x) == [i \in 1..3 |-> x.hi[i] - x.lo[i]]
BoxVol(x) == Span(x)[1] * Span(x)[2] * Span(x)[3]
Inside(p, x) == \A i \in 1..3 : p[i] > x.lo[i] /\ p[i] < x.hi[i]
\* contacts each body takes part in; those of its members are a clump's
Ends(e, i, x) == LET M == LET b == Body(e.B, i) IN IF b.clump THEN Bits(b.members) ELSE {i}
                     P == Pos(e.B) IN
  SumInt([k \in DOMAIN e.C |-> (IF e.C[k].id1 \in M /\ (x = <<>> \/ Inside(P[e.C[k].id1], x[1])) THEN 1 ELSE 0)
                              + (IF e.C[k].id2 \in M /\ (x = <<>> \/ Inside(P[e.C[k].id2], x[1])) THEN 1 ELSE 0)])
Histogram(e, x) == LET T == Own(e.B)
                       S == {k \in DOMAIN T : Ends(e, T[k].id, x) > 0 \/ x = <<>> \/ Inside(T[k].p, x[1])}
                       ns == {Ends(e, T[k].id, x) : k \in S} IN
  {<<n, Cardinality({k \in S : Ends(e, T[k].id, x) = n})>> : n \in ns}
Floor(a, b) == a \div b
Overlap(e) == LET R == Rad(e.B)  S == SelectSeq(e.C, LAMBDA c : R[c.id1] > 0 /\ R[c.id2] > 0) IN
  IF S = <<>> THEN -1000 ELSE Most([k \in DOMAIN S |-> ((S[k].un * (R[S[k].id1] + R[S[k].id2])) \div (2 * R[S[k].id1] * R[S[k].id2]))])
Touching(e, i) == {IF c.id1 = i THEN c.id2 ELSE c.id1 : c \in {e.C[k] : k \in {j \in DOMAIN e.C : e.C[j].id1 = i \/ e.C[j].id2 = i}}}
Fabric(S) == SumTen([k \in DOMAIN S |-> [i \in 1..3 |-> [j \in 1..3 |-> (S[k].n[i] * S[k].n[j]) \div 40000]]])   \* x10000
\* traction on one sphere: sum of force x lever arm, x1000
Own1(e, b) == SumTen([k \in DOMAIN e.C |-> LET c == e.C[k] IN
    IF c.id1 = b.id THEN Outer(Mul(Force(c), -1), Sub(c.cp, Mul(b.p, 1000)))
    ELSE IF c.id2 = b.id THEN Outer(Force(c), Sub(Sub(c.cp, Mul(b.p, 1000)), Mul(c.sh, 1000))) ELSE <<Z3, Z3, Z3>>])
\* share of a branch within layer n, x1000
Layer(c, z1, z2, n, dz, z0) ==
  LET lo == IF z1 < z2 THEN z1 - z0 ELSE z2 - z0  hi == IF z1 < z2 THEN z2 - z0 ELSE z1 - z0
      a == IF lo > n * dz THEN lo ELSE n * dz  b == IF hi < (n + 1) * dz THEN hi ELSE (n + 1) * dz
  IN IF lo \div dz = hi \div dz THEN (IF lo \div dz = n THEN 1000 ELSE 0) ELSE IF b <= a THEN 0 ELSE ((b - a) * 1000) \div (hi - lo)
Profile(e, n, o) == LET P == Pos(e.B)  S == SelectSeq(e.C, LAMBDA c : ~(Body(e.B, c.id1).block /\ Body(e.B, c.id2).block)) IN
  SumTen([k \in DOMAIN S |-> LET c == S[k] IN Outer(Mul(Force(c), Layer(c, P[c.id1][3], P[c.id2][3], n, o.dz, o.z0)), Branch(c, P[c.id1], P[c.id2]))])
Centres(e, n, o) == LET S == SelectSeq(Spheres(e.B, <<>>), LAMBDA b : (b.p[3] - o.z0) \div o.dz = n) IN
  [vol |-> SumInt([k \in DOMAIN S |-> S[k].r * S[k].r * S[k].r]), n |-> Len(S), v |-> SumVec([k \in DOMAIN S |-> S[k].v])]
Observed(e) ==
  LET o == e.o  B == e.B  C == e.C  P == Pos(B)  K == Kinetic(e)  x == Box(B)
      Sph == Spheres(B, o.mask)  All == Spheres(B, <<>>)
      vol == IF e.peri THEN e.vol ELSE BoxVol(x)
  IN
  /\ Holds("momentum", o.mom = Momentum(B), <<o.mom, Momentum(B)>>)
  /\ Holds("angular momentum", o.ang = AngMomentum(B, o.org), <<o.ang, AngMomentum(B, o.org)>>)
  /\ Holds("kinetic energy", Close(o.ke, SumInt(K), 20 + SumInt(K) \div 500), <<o.ke, SumInt(K)>>)
  /\ Holds("most energetic body", o.maxid = -1 \/ (o.maxid \in Ids(Moving(B)) /\ Close(Energy(e, Body(B, o.maxid)), Most(K), 20 + Most(K) \div 500)), <<o.maxid, K>>)
  /\ Holds("no moving body", o.maxid = -1 => Most(K) <= 5, <<o.maxid, K>>)
  /\ Holds("sum of forces", o.sf = SumInt([k \in DOMAIN o.ids |-> Dot(o.dir, Body(B, o.ids[k]).f)]), o)
  /\ Holds("sum of torques", o.st = SumInt([k \in DOMAIN o.ids |-> LET b == Body(B, o.ids[k]) IN Dot(o.dir, Add(b.t, Cross(Sub(b.p, o.org), b.f)))]), o)
  /\ Holds("volume of spheres", o.vol = SumInt([k \in DOMAIN Sph |-> Sph[k].r * Sph[k].r * Sph[k].r]), o)
  /\ Holds("mass of spheres", o.mass = SumInt([k \in DOMAIN Sph |-> Sph[k].m]), o)
  /\ Holds("enclosing box", All = <<>> \/ (o.lo = x.lo /\ o.hi = x.hi), <<o, x>>)
  /\ Holds("box cut by a quarter", All = <<>> \/ (o.clo = Add(Mul(x.lo, 8), Span(x)) /\ o.chi = Sub(Mul(x.hi, 8), Span(x))), <<o, x>>)
  /\ Holds("extreme bodies", All = <<>> \/ \A a \in 1..3 :
       /\ Bits(o.neg[a]) = {b \in Ids(All) : P[b][a] - 2 * Body(B, b).r <= x.lo[a]}
       /\ Bits(o.pos[a]) = {b \in Ids(All) : P[b][a] + 2 * Body(B, b).r >= x.hi[a]}, <<o, x>>)
  /\ Holds("solid volume by porosity", All = <<>> \/ Close(o.solid, SumInt([k \in DOMAIN All |-> All[k].r * All[k].r * All[k].r]) * 100, 5), o)
  /\ Holds("stress", o.stress = Stress(C, P), <<o.stress, Stress(C, P)>>)
  /\ Holds("stress over default volume", All = <<>> \/ o.stressv = Stress(C, P), <<o.stressv, Stress(C, P)>>)
  /\ Holds("dynamic stress", o.dyn = DynStress(B, e.G), <<o.dyn, DynStress(B, e.G)>>)
  /\ Holds("dynamic stress of each sphere", \A k \in DOMAIN All : LET b == All[k]  u == Fluct(b, b.p, e.G) IN o.dynb[b.id + 1] = Outer(Mul(u, -b.m), u), o.dynb)
  /\ Holds("forces across a plane", e.peri \/ o.plane = AcrossPlane(C, P, o.org, o.dir), <<o.plane, AcrossPlane(C, P, o.org, o.dir)>>)
  /\ Holds("total force", o.tot = SumVec([k \in DOMAIN C |-> [i \in 1..3 |-> Abs(Force(C[k])[i])]]), o.tot)
  /\ Holds("largest overlap", Close(o.over, Overlap(e), 2 + Abs(Overlap(e)) \div 100), <<o.over, Overlap(e)>>)
  /\ Holds("number of contacts of each body", \A k \in DOMAIN B : o.num[B[k].id + 1] = Cardinality(Touching(e, B[k].id)), o.num)
  /\ Holds("contacts of each body", \A k \in DOMAIN B : Bits(o.lists[B[k].id + 1]) = Touching(e, B[k].id) /\ Bits(o.touch[k]) = Touching(e, B[k].id), <<o.lists, o.touch>>)
  /\ Holds("histogram of contacts", Bits(o.hist) = Histogram(e, <<>>) /\ Bits(o.histbox) = Histogram(e, <<[lo |-> o.blo, hi |-> o.bhi]>>), <<o.hist, Histogram(e, <<>>), o.histbox, Histogram(e, <<[lo |-> o.blo, hi |-> o.bhi]>>)>>)
  /\ Holds("fabric", C = <<>> \/ All = <<>> \/ o.fab = <<>> \/ CloseT(o.fab, Fabric(C), 6 * Len(C)), <<o.fab, Fabric(C)>>)
  /\ Holds("stress of each sphere", \A k \in DOMAIN All : CloseT(o.bs[All[k].id + 1], Own1(e, All[k]), 60), <<o.bs, [k \in DOMAIN All |-> Own1(e, All[k])]>>)
  /\ Holds("unbalanced force", o.unb = <<>> \/ (LET u == Unbalanced(e, FALSE) IN Close(o.unb[1], Per1000(u[1], u[2]), 5 + o.unb[1] \div 60)), <<o.unb, Unbalanced(e, FALSE)>>)
  /\ Holds("largest unbalanced force", o.unb = <<>> \/ (LET u == Unbalanced(e, TRUE) IN Close(o.unb[2], Per1000(u[1], u[2]), 5 + o.unb[2] \div 60)), <<o.unb, Unbalanced(e, TRUE)>>)
  /\ Holds("stress of each layer", e.peri \/ \A n \in DOMAIN o.lay : CloseT(o.lay[n], Profile(e, n - 1, o), 3000), <<o.lay, [n \in DOMAIN o.lay |-> Profile(e, n - 1, o)]>>)
  /\ Holds("layers by centres", \A n \in DOMAIN o.cen : LET c == Centres(e, n - 1, o) IN o.cen[n].vol = c.vol /\ (c.n = 0 \/ CloseV(Mul(o.cen[n].v, c.n), Mul(c.v, 100), c.n + 1)), <<o.cen, [n \in DOMAIN o.cen |-> Centres(e, n - 1, o)]>>)
\* actions on all or some bodies
Still(b) == [b EXCEPT !.v = Z3, !.w = Z3, !.L = Z3]
Grown(e, b) == IF (e.dynOnly /\ ~b.dyn) \/ ~(b.clump \/ b.r > 0) THEN b ELSE
  [b EXCEPT !.r = 2 * b.r, !.m = IF e.mass THEN 8 * b.m ELSE b.m, !.I = IF e.mass THEN Mul(b.I, 32) ELSE b.I,
            !.p = IF b.member THEN Sub(Mul(b.p, 2), Body(e.B, b.owner).p) ELSE b.p]
Changed(e, b) ==
  CASE e.act = "calm" -> IF b.dyn /\ Masked(b, e.mask) THEN Still(b) ELSE b
    [] e.act = "shift" -> IF b.id \in Bits(e.ids) THEN [b EXCEPT !.p = Add(b.p, e.by)] ELSE b
    [] e.act = "pos" -> IF b.id = e.id THEN [b EXCEPT !.p = [i \in 1..3 |-> IF i \in Bits(e.axes) THEN e.by[i] ELSE b.p[i]]] ELSE b
    [] e.act = "vel" -> IF b.id = e.id THEN [b EXCEPT !.v = [i \in 1..3 |-> IF i \in Bits(e.axes) THEN e.by[i] ELSE b.v[i]]] ELSE b
    [] e.act = "grow" -> Grown(e, b)
    [] e.act = "friction" -> b
Acted(e) ==
  /\ Holds(e.act, Len(e.B) = Len(e.B2) /\ \A k \in DOMAIN e.B : e.B2[k] = Changed(e, e.B[k]), [k \in DOMAIN e.B |-> IF e.B2[k] = Changed(e, e.B[k]) THEN <<>> ELSE <<e.B2[k], Changed(e, e.B[k])>>])
  /\ Holds("contacts", Len(e.C) = Len(e.C2) /\ \A k \in DOMAIN e.C :
       LET c == e.C[k]  d == e.C2[k] IN
       /\ d.id1 = c.id1 /\ d.id2 = c.id2 /\ d.fn = c.fn /\ d.fs = c.fs
       /\ e.act = "grow" => \A s \in {<<c.id1, "r1">>, <<c.id2, "r2">>} : LET b == Body(e.B2, s[1]) IN d[s[2]] = (IF b.r > 0 /\ (~e.dynOnly \/ b.dyn) THEN b.r ELSE c[s[2]])
       /\ e.act = "friction" => LET m == Body(e.B, c.id1)  n == Body(e.B, c.id2)
                                    a == IF m.dyn THEN e.angle ELSE e.mat[m.id + 1]  b == IF n.dyn THEN e.angle ELSE e.mat[n.id + 1] IN d.tan = (IF a < b THEN a ELSE b), <<e.C, e.C2>>)
Init == l = 1
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "obs" -> TRUE = Observed(e)
       [] e.op = "act" -> TRUE = Acted(e)
Spec == Init /\ [][Next]_vars
=============================================================================
