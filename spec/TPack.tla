------------------------------- MODULE TPack --------------------------------
(* Recorded packings of the real code against Packing.tla and Region.tla.    *)
EXTENDS Packing, TraceLib
VARIABLES l, pk
vars == <<l, pk>>
Vec(a) == <<a[1], a[2], a[3]>>
Seen(e) == [s |-> e.s, cell |-> Vec(e.cell), peri |-> e.isp]
\* ---- regions ---------------------------------------------------------------
PredOk(e) ==
  /\ \A i \in DOMAIN e.pts : LET q == e.pts[i]  a == In(e.region, q.p, q.pad) IN Holds("point", (a = "in" => q.in) /\ (a = "out" => ~q.in), <<q, a, e.region>>)
  /\ \A i \in DOMAIN e.pts : In(e.region, e.pts[i].p, 0) = "in" => Holds("box", \A k \in 1..3 : e.lo[k] <= 100 * e.pts[i].p[k] + 1 /\ 100 * e.pts[i].p[k] <= e.hi[k] + 1, <<e.pts[i].p, e.region, e.lo, e.hi>>)
  /\ Tight(e.region) # <<>> => LET b == Tight(e.region) IN \A k \in 1..3 : Abs(e.lo[k] - 100 * b[1][k]) <= 1 /\ Abs(e.hi[k] - 100 * b[2][k]) <= 1
Distant(s, d) == \A i \in DOMAIN s, j \in DOMAIN s : i < j => Sq(Sub(s[i].c, s[j].c)) >= d * d
OrthoOk(e) == LET a == 2 * e.r + e.gap
                  ax(k) == {e.lo[k] + e.r + a * i : i \in 0..((e.hi[k] - e.lo[k]) \div a)} IN
  /\ \A i \in DOMAIN e.s : e.s[i].r = e.r /\ In(e.region, e.s[i].c, e.r) # "out"
  /\ Distant(e.s, a)
  /\ LET C == {Vec(e.s[i].c) : i \in DOMAIN e.s} IN \A x \in ax(1), y \in ax(2), z \in ax(3) : In(e.region, <<x, y, z>>, e.r) = "in" => <<x, y, z>> \in C
HexaOk(e) == LET a == 2 * e.r + e.gap
                 n == [k \in 1..3 |-> (e.hi[k] - e.lo[k]) \div ((a * 8) \div 10)]
                 at(i, j, k) == <<e.lo[1] + (a * (2 * i + ((j + k) % 2))) \div 2, e.lo[2] + (a * 8660 * (3 * j + (k % 2))) \div 30000, e.lo[3] + (a * 8165 * k) \div 10000>> IN
  /\ \A i \in DOMAIN e.s : e.s[i].r = e.r /\ In(e.region, e.s[i].c, e.r - 2) # "out"
  /\ Distant(e.s, a - 2)
  /\ \A i \in 0..n[1], j \in 0..n[2], k \in 0..n[3] : In(e.region, at(i, j, k), e.r + 3) = "in" => \E m \in DOMAIN e.s : Near(e.s[m].c, at(i, j, k), 3)
FilterOk(e) == LET p == Listed(e.s)  sh == Sub(Add(e.lo, e.hi), Mid2(p))      \* twice the shift
                   q == [j \in DOMAIN e.s |-> [c |-> [i \in 1..3 |-> e.s[j].c[i] + sh[i] \div 2], r |-> e.s[j].r]]
                   a(j) == In(e.region, q[j].c, q[j].r) IN
  /\ \A i \in DOMAIN e.got : \E j \in DOMAIN q : q[j] = [c |-> Vec(e.got[i].c), r |-> e.got[i].r] /\ a(j) # "out"
  /\ \A j \in DOMAIN q : a(j) = "in" => \E i \in DOMAIN e.got : q[j] = [c |-> Vec(e.got[i].c), r |-> e.got[i].r]
  /\ Len(e.got) <= Len(q)
\* ---- random packings -------------------------------------------------------
New(e) == SubSeq(e.s, Len(e.pre) + 1, Len(e.s))
Radii(e) == IF e.psd.d # <<>> THEN <<(e.psd.d[1] * e.scale) \div 20000, (e.psd.d[Len(e.psd.d)] * e.scale) \div 20000>>
            ELSE IF e.r > 0 THEN <<(e.r * (100 - e.fuzz)) \div 100, (e.r * (100 + e.fuzz)) \div 100>> ELSE <<0, 100000>>
\* part of the spheres each piece of the distribution should get, out of 10^6
Piece(e, i) == LET d0 == e.psd.d[i]  d1 == e.psd.d[i + 1]  dp == e.psd.p[i + 1] - e.psd.p[i] IN
  IF ~e.mass THEN dp * 1000 ELSE IF dp = 0 THEN 0 ELSE ((dp * 100000) \div (d1 - d0)) * ((10000000 \div ((d0 * d0) \div 100)) - (10000000 \div ((d1 * d1) \div 100)))
Share(e, n) == LET S == FoldSet(LAMBDA i, a : a + Piece(e, i) \div 1000, 0, 1..(Len(e.psd.d) - 1)) IN (FoldSet(LAMBDA i, a : a + Piece(e, i) \div 1000, 0, 1..(n - 1)) * 1000) \div S
Fit(e) == LET s == New(e)  n == Len(s) IN
  \A k \in 2..(Len(e.psd.d) - 1) : LET below == Cardinality({i \in DOMAIN s : 20000 * s[i].r < e.psd.d[k] * e.scale})  want == Share(e, k) * n IN
     Abs(1000 * below - want) <= 1500 + 10 * n
Bad(e) == e.psd.d # <<>> /\ (e.psd.p[1] # 0 \/ e.psd.p[Len(e.psd.p)] # 100 \/ \E i \in 1..(Len(e.psd.p) - 1) : e.psd.p[i] > e.psd.p[i + 1])
Box0(e) == <<<<e.hi[1] - e.lo[1], 0, 0>>, <<0, e.hi[2] - e.lo[2], 0>>, <<0, 0, e.hi[3] - e.lo[3]>>>>
Base(e) == IF e.h # <<>> THEN e.h ELSE Box0(e)
CloudOk(e) == LET s == New(e) IN
  IF Bad(e) THEN e.ret = -1 ELSE
  /\ Holds("cloud 2", SubSeq(e.s, 1, Len(e.pre)) = [i \in DOMAIN e.pre |-> [c |-> e.pre[i].c, r |-> e.pre[i].r, k |-> -1]], e.ret)
  /\ Holds("cloud 3", e.ret = Len(s) /\ (e.num > 0 => Len(s) <= e.num), e.ret)
  /\ Holds("cloud 4", (e.num > 0 /\ e.r = 0 => Len(s) = e.num), e.ret)
  /\ Holds("cloud 5", \A i \in DOMAIN s : s[i].r >= Radii(e)[1] - 2 /\ s[i].r <= Radii(e)[2] + 2 /\ s[i].k = -1, e.ret)
  /\ Holds("cloud 6", Clear(e.s, IF e.peri THEN Images(Base(e)) ELSE {ZV}), e.ret)
  /\ Holds("cloud 7", (IF e.peri THEN e.h # <<>> \/ \A i \in DOMAIN s, k \in 1..3 : s[i].c[k] >= e.lo[k] - 1 /\ s[i].c[k] <= e.hi[k] + 1 ELSE Within(s, e.lo, e.hi, 2)), e.ret)
  /\ Holds("cloud 8", (e.num > 0 => Decreasing(s)) /\ (e.num > 0 /\ e.psd.d # <<>> => Fit(e)), e.ret)
  /\ Holds("cloud 9", e.isp = e.peri /\ (e.peri /\ e.h = <<>> /\ (\A k \in 1..3 : e.lo[k] # e.hi[k]) => Vec(e.cell) = Sub(e.hi, e.lo)) /\ (~e.peri => Vec(e.cell) = ZV), e.ret)
  /\ Holds("cloud 10", \A i \in DOMAIN e.again : e.again[i] = e.s, e.ret)
ClumpsOk(e) == LET m == Len(e.pre)  c == New(e)  Ks == {c[i].k : i \in DOMAIN c}  part(k) == SelectSeq(c, LAMBDA x : x.k = k)  S == IF e.peri THEN Images(Box0(e)) ELSE {ZV} IN
  /\ SubSeq(e.s, 1, m) = [i \in 1..m |-> [c |-> e.pre[i].c, r |-> e.pre[i].r, k |-> e.pre[i].k]]
  /\ e.ret = Cardinality(Ks) /\ (e.num > 0 => e.ret <= e.num) /\ e.ret >= e.must
  /\ Ks \cap ({e.pre[i].k : i \in 1..m} \cup {-1}) = {}
  /\ \A k \in Ks : \E t \in DOMAIN e.t : Copy(part(k), e.t[t])
  /\ \A i \in DOMAIN e.s, j \in DOMAIN e.s : i < j /\ j > m /\ e.s[i].k # e.s[j].k => \A sh \in S : Apart(e.s[i], e.s[j], sh, 3)
  /\ (~e.peri => Within(c, e.lo, e.hi, 2))
  /\ e.isp = e.peri /\ Vec(e.cell) = IF e.peri THEN Sub(e.hi, e.lo) ELSE ZV
  /\ (e.seed # 0 => e.again = e.s)
\* ---- the packing itself ----------------------------------------------------
Like(p, q) == /\ Len(p.s) = Len(q.s) /\ p.peri = q.peri /\ p.cell = q.cell
              /\ \A i \in DOMAIN p.s : Near(p.s[i].c, q.s[i].c, 1) /\ Abs(p.s[i].r - q.s[i].r) <= 1 /\ p.s[i].k = q.s[i].k
Partition(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p, j \in DOMAIN p : (p[i] >= 0 /\ p[i] = p[j]) <=> (q[i] >= 0 /\ q[i] = q[j])
\* what a packing tells about itself
ShowOk(e) == LET p == Seen(e)  n == Len(e.s) IN
  /\ e.len = n /\ ~e.past /\ e.it = [i \in DOMAIN e.s |-> [c |-> e.s[i].c, r |-> e.s[i].r]]
  /\ e.one = Singles(p) /\ e.groups = Clumps(p) /\ e.has = (Clumps(p) # <<>>)
  /\ (n > 0 => /\ Near(e.lo, Lo(p), 1) /\ Near(e.hi, Hi(p), 1) /\ Near(e.dim, Sub(Hi(p), Lo(p)), 2) /\ Near(e.mid2, Mid2(p), 2)
               /\ Abs(e.dens - Cubes(p) \div 8) <= 40 + Cubes(p) \div 100
               /\ LET d0 == 200 * Least({e.s[i].r : i \in DOMAIN e.s})  d1 == 200 * Most({e.s[i].r : i \in DOMAIN e.s})
                      lo == IF d0 = d1 THEN d0 - 800 ELSE d0  hi == IF d0 = d1 THEN d0 + 800 ELSE d1  D == e.psd.d  tot == Cubes(p) \div 8 IN
                  /\ \A k \in 1..5 : Abs(4 * D[k] - (4 * lo + (k - 1) * (hi - lo))) <= 8
                  /\ e.psd.n[1] = 0 /\ e.psd.n[5] = n
                  /\ \A k \in 2..4 : LET a == {i \in DOMAIN e.s : 200 * e.s[i].r < D[k] - 2}  b == {i \in DOMAIN e.s : 200 * e.s[i].r <= D[k] + 2}
                                         cub(S) == FoldSet(LAMBDA i, x : x + (e.s[i].r * e.s[i].r * e.s[i].r) \div 8, 0, S) IN
                       /\ e.psd.n[k] >= Cardinality(a) /\ e.psd.n[k] <= Cardinality(b)
                       /\ e.psd.m[k] >= cub(a) - 40 - tot \div 100 /\ e.psd.m[k] <= cub(b) + 40 + tot \div 100)
Spun(e, c) == Turn(c, e.a, e.n)
SimOk(e) == LET p == pk  n == Len(p.s)  own == {e.B[i].id : i \in DOMAIN e.B}  at(i) == e.B[CHOOSE j \in DOMAIN e.B : e.B[j].id = i]
                K == Clumps(p) IN
  /\ Len(e.ids) = n + Len(K) /\ Len(e.B) = e.pre + n + Len(K)
  /\ \A i \in 1..n : e.ids[i] \in own /\ e.ids[i] >= e.pre /\ Near(at(e.ids[i]).c, Spun(e, p.s[i].c), 1) /\ at(e.ids[i]).r = p.s[i].r
  /\ Partition([i \in 1..n |-> at(e.ids[i]).owner], [i \in 1..n |-> p.s[i].k])
  /\ \A i \in 1..n : p.s[i].k < 0 <=> at(e.ids[i]).owner < 0
  /\ {e.ids[i] : i \in (n + 1)..Len(e.ids)} = {i \in own : at(i).clump}
  /\ e.operi = p.peri
  /\ (p.peri /\ p.cell # ZV => e.trsf /\ \A k \in 1..3 : Near(e.h[k], Spun(e, [i \in 1..3 |-> IF i = k THEN p.cell[k] ELSE 0]), 1))
FromOk(e, q) == LET S == SelectSeq(e.B, LAMBDA b : b.r > 0) IN
  /\ Len(q.s) = Len(S) /\ \A i \in DOMAIN S : Near(q.s[i].c, S[i].c, 1) /\ q.s[i].r = S[i].r /\ q.s[i].k = S[i].owner
  /\ q.cell = Vec(e.cell2) /\ q.peri = (q.cell # ZV)
Step(e) == LET q == Seen(e) IN
  CASE e.op = "new" -> Like(q, Listed(e.l))
    [] e.op = "list" -> Like(q, Listed(e.l))
    [] e.op = "lists" -> Like(q, Listed([i \in DOMAIN e.l |-> [e.l[i] EXCEPT !.k = -1]]))
    [] e.op = "add" -> Like(q, Added(pk, e.c, e.r))
    [] e.op = "move" -> Like(q, Moved(pk, e.v))
    [] e.op = "scale" -> Like(q, IF pk.s = <<>> THEN [pk EXCEPT !.cell = [i \in 1..3 |-> (@[i] * Abs(e.a)) \div e.b]] ELSE Scaled(pk, e.a, e.b))
    [] e.op = "turn" -> Like(q, IF pk.s = <<>> THEN [pk EXCEPT !.cell = ZV] ELSE Turned(pk, e.a, e.n))
    [] e.op = "cell" -> Like(q, [pk EXCEPT !.cell = Vec(e.v), !.peri = (Vec(e.v) # ZV)])
    [] e.op = "repeat" -> IF pk.cell = ZV \/ \E i \in 1..3 : e.n[i] <= 0 THEN e.err /\ q = pk ELSE ~e.err /\ Repeated(pk, q, e.n)
    [] e.op = "fill" -> IF pk.cell = ZV THEN e.err /\ q = pk ELSE ~e.err /\ Repeated(pk, q, Needed(pk, e.v))
    [] e.op = "file" -> Like(q, [pk EXCEPT !.peri = (pk.cell # ZV)])
    [] e.op = "text" -> Like(q, [s |-> e.l, cell |-> Vec(e.cell2), peri |-> Vec(e.cell2) # ZV])
    [] e.op = "sim" -> q = pk /\ SimOk(e)
    [] e.op = "from" -> FromOk(e, q)
Init == l = 1 /\ pk = Empty
Good(e) == CASE e.op = "pred" -> PredOk(e) [] e.op = "ortho" -> OrthoOk(e) [] e.op = "hexa" -> HexaOk(e) [] e.op = "filter" -> FilterOk(e)
             [] e.op = "cloud" -> CloudOk(e) [] e.op = "clumps" -> ClumpsOk(e) [] OTHER -> Step(e) /\ ShowOk(e)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             /\ TRUE = Good(e)
             /\ pk' = IF e.op \in {"pred", "ortho", "hexa", "filter", "cloud", "clumps"} THEN Empty ELSE Seen(e)
Spec == Init /\ [][Next]_vars
=============================================================================
