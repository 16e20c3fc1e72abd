-------------------------------- MODULE TCell --------------------------------
(* Recorded steps of a deforming periodic cell against the rules of Cell.tla *)
(* in three dimensions.  Logged integers: lengths, positions and velocities  *)
(* x1000, gradients x10000, transformation x10000; matrices by rows.         *)
EXTENDS TraceLib
VARIABLES l, s
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
Rnd(x, k) == IF x >= 0 THEN (x + k \div 2) \div k ELSE -((-x + k \div 2) \div k)
Row(M, i) == [j \in 1..3 |-> M[3 * (i - 1) + j]]
Col(M, j) == [i \in 1..3 |-> M[3 * (i - 1) + j]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* gradient (x10000) times vector or matrix
GV(G, v) == [i \in 1..3 |-> Rnd(Dot(Row(G, i), v), 10000)]
GM(G, M) == [k \in 1..9 |-> Rnd(Dot(Row(G, ((k - 1) \div 3) + 1), Col(M, ((k - 1) % 3) + 1)), 10000)]
Times(v, d) == [i \in DOMAIN v |-> Rnd(v[i] * d[1], d[2])]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Zero9 == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
Skew(G) == LET R(i, j) == G[3 * (i - 1) + j] - G[3 * (j - 1) + i] IN <<-R(2, 3), R(1, 3), -R(1, 2)>>   \* twice the spin
At(M, i, j) == M[3 * (i - 1) + j]
Det(M) == At(M, 1, 1) * (At(M, 2, 2) * At(M, 3, 3) - At(M, 2, 3) * At(M, 3, 2))
        - At(M, 1, 2) * (At(M, 2, 1) * At(M, 3, 3) - At(M, 2, 3) * At(M, 3, 1))
        + At(M, 1, 3) * (At(M, 2, 1) * At(M, 3, 2) - At(M, 2, 2) * At(M, 3, 1))
Cof(M, i, j) == LET a == (i % 3) + 1  b == ((i + 1) % 3) + 1  c == (j % 3) + 1  d == ((j + 1) % 3) + 1
                IN At(M, a, c) * At(M, b, d) - At(M, a, d) * At(M, b, c)
\* one step of a body
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Body(b, o, e) ==      \* b before, o after
  LET G == IF s.pending = <<>> THEN s.g ELSE s.pending[1]
      dt == e.dt
      fl == Sub(b.vel, GV(s.prev, b.pos))
      acc == [i \in 1..3 |-> IF b.blocked THEN 0 ELSE b.f[i] * 1000]
      \* damping acts against the motion relative to the cell
      p == [i \in 1..3 |-> acc[i] * Sgn(fl[i] + Rnd(acc[i] * dt[1], 2 * dt[2]))]
      ad == [i \in 1..3 |-> acc[i] - Rnd(Sgn(p[i]) * acc[i] * e.damp, 100)]
      conv == IF e.homo > 1 THEN GV(s.prev, b.vel) ELSE <<0, 0, 0>>
      dG == Sub(G, s.prev)
      hom == IF e.homo > 0 THEN GV(dG, b.pos) ELSE <<0, 0, 0>>
      v == Add(Add(b.vel, Times(Add(ad, conv), dt)), hom)
      close == \E i \in 1..3 : acc[i] # 0 /\ e.damp # 0 /\ Abs(fl[i] + Rnd(acc[i] * dt[1], 2 * dt[2])) <= 3
      w == IF e.homo > 0 THEN [i \in 1..3 |-> b.w[i] + Rnd(Skew(dG)[i], 2)] ELSE b.w
  IN /\ Holds("velocity", close \/ Near(o.vel, v, 3), <<b, o, v>>)
     /\ Holds("position", Near(o.pos, Add(b.pos, Times(o.vel, dt)), 2), <<b, o, v>>)
     /\ Holds("spin", Near(o.w, w, 2), <<b, o, w>>)
Strain(e) == LET T == e.trsf
                 Green == [k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1  j == ((k - 1) % 3) + 1 IN Rnd(Dot([q \in 1..3 |-> T[3 * (q - 1) + i] \div 2], [q \in 1..3 |-> T[3 * (q - 1) + j] \div 2]), 2500)]
             IN /\ Holds("small strain", \A i, j \in 1..3 : Abs(2 * At(e.small, i, j) - At(T, i, j) - At(T, j, i) + (IF i = j THEN 20000 ELSE 0)) <= 3, <<T, e.small>>)
                /\ Holds("Cauchy-Green tensor", Near(e.rcg, Green, 40), <<T, e.rcg, Green>>)
Size(e) == \A j \in 1..3 : Holds("lengths of the cell vectors", LET c == [i \in 1..3 |-> Rnd(Col(e.H, j)[i], 10)]  z == Rnd(e.size[j], 10) IN Abs(Dot(c, c) - z * z) <= 4 * z, e)
StepOk(e) ==
  /\ Holds("cell vectors", Near(e.H, Add(s.H, Times(GM(s.g, s.H), e.dt)), 2), <<s, e.H>>)
  /\ Holds("transformation", Near(e.trsf, Add(s.T, Times(GM(s.g, s.T), e.dt)), 2), <<s, e.trsf>>)
  /\ Holds("gradient in use", e.g = (IF s.pending = <<>> THEN s.g ELSE s.pending[1]), <<s, e.g>>)
  /\ \A k \in DOMAIN e.b : Body(s.b[k], e.b[k], e)
  /\ Size(e) /\ Strain(e)
\* a body released at rest in a cell follows it exactly, with convection
Upd(e) == LET pen == IF e.op = "step" THEN <<>> ELSE IF "next" \in DOMAIN e THEN <<e.next>> ELSE s.pending
          IN [H |-> e.H, T |-> e.trsf, g |-> e.g, prev |-> IF e.op = "step" THEN e.g ELSE s.prev, pending |-> pen, b |-> e.b]
\* wrapping: integer cell and points
WrapOk(e) ==
  LET M == e.M  d == Det(M)
      num == [i \in 1..3 |-> Cof(M, 1, i) * e.p[1] + Cof(M, 2, i) * e.p[2] + Cof(M, 3, i) * e.p[3]]   \* reduced coordinates times d
      edge == \E i \in 1..3 : num[i] % d = 0
      k == [i \in 1..3 |-> num[i] \div d]
      w == [i \in 1..3 |-> e.p[i] - Dot(Row(M, i), k)]
  IN d > 0 => /\ Holds("shear and unshear are inverse", Near(e.back, [i \in 1..3 |-> 1000 * e.p[i]], 1), e)
              /\ Holds("volume", Abs(e.vol - d) <= 1, e)
              /\ Holds("wrapped point", edge \/ Near(e.w, [i \in 1..3 |-> 1000 * w[i]], 1), <<e, w>>)
Init == l = 1 /\ s = [b |-> <<>>]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new" -> s' = [H |-> e.H, T |-> e.trsf, g |-> e.g, prev |-> e.g, pending |-> <<>>, b |-> e.b]
             [] e.op = "set" -> s' = Upd(e)
             [] e.op = "load" -> TRUE = (Holds("cell after loading", e.H = s.H /\ e.trsf = s.T /\ e.g = s.g /\ e.b = s.b, <<s, e>>)) /\ s' = s
             [] e.op = "step" -> TRUE = StepOk(e) /\ s' = Upd(e)
             [] e.op = "wrap" -> TRUE = WrapOk(e) /\ s' = s
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
