------------------------------- MODULE TDrive -------------------------------
(* Engines that prescribe motion or apply loads, on recorded steps.  Time is *)
(* counted in units of a base step; one step lasts e.m units.  Lengths and   *)
(* velocities (per unit of time) x1000, angles and spins x10000 rad, forces  *)
(* x100, harmonic phases in 1/48 turns, unit vectors xN.                     *)
(* Kinematic engines first stop the bodies they move, then add their motion; *)
(* combined ones add all their motions; force engines add to the force.      *)
EXTENDS Vec3, Interp, TraceLib, Bitwise
VARIABLES l,
          eng,    \* the engines, with their inner state: angle turned, phase, controller
          late    \* position in the list of the integrator
vars == <<l, eng, late>>
Zero == <<0, 0, 0>>
Len3(v) == IF \A i \in 1..3 : Abs(v[i]) < 20000 THEN Norm(v) ELSE 16 * Norm(Div(v, 16))
Unit(a) == LET s == Mul(a, 1000) IN Div(Mul(s, N), Norm(s))
\* sine and cosine of an angle x10000, by series after reduction to (-pi/2, pi/2)
Turn == 62832
M4(a, b) == RDiv(a * b, 10000)
Red(x) == LET y == ((x + 31416) % Turn) - 31416 IN IF y > 15708 THEN 31416 - y ELSE IF y < -15708 THEN -31416 - y ELSE y
Sin(x) == LET a == Red(x)  q == M4(a, a)
              s == 10000 - RDiv(M4(q, 10000 - RDiv(M4(q, 10000 - RDiv(M4(q, 10000 - RDiv(q, 72)), 42)), 20)), 6)
          IN M4(a, s)
Cos(x) == Sin(x + 15708)
Sin48(k) == Sin((k % 48) * 1309)
\* rotation of the vector v (lengths x1000) about the unit vector n
Rotate(v, n, a) == LET c == Cos(a)  s == Sin(a)
                       al == Dot(n, v) \div N
                   IN [i \in 1..3 |-> RDiv(v[i] * c, 10000) + RDiv(RDiv(Cross(n, v)[i], N) * s, 10000) + RDiv(RDiv(n[i] * al, N) * (10000 - c), 10000)]
(* the motion an engine adds to a body at position p, given its spin rate om *)
Turning(g, om, p, m) ==
  LET n == Unit(g.axis)
      L == Sub(p, g.zp)
      ch == IF g.zero THEN Div(Sub(Rotate(L, n, om * m), L), m) ELSE Zero
  IN [v |-> ch, w |-> Div(Mul(n, om), N)]
Along(g, v) == Div(Mul(Unit(g.axis), v), N)
Harm(A, a, b, t) == -RDiv(M4(Sin48(a * t + b), A) * (a * 1309), 10000)
Om(g, t) == CASE g.kind = "hrot" -> Harm(g.A, g.a, g.b, t)
              [] g.kind = "ihelix" -> Interpolate(g.ts, g.vs, t, g.wrap)
              [] OTHER -> g.om
Lin(g, t) == IF g.kind = "ihelix" THEN M4(Om(g, t), g.slope) ELSE g.lin
\* z axis turned onto the unit vector n
FromZ(n, v) == LET k == <<-n[2], n[1], 0>>  c == n[3] IN
   [i \in 1..3 |-> RDiv(v[i] * c, N) + RDiv(Cross(k, v)[i], N) + RDiv(RDiv(k[i] * (Dot(k, v) \div N), N) * 10000, 10000 + c \div 2)]
Servo(g, F, iter) ==   \* controller state after a call with the forces F on its bodies
  IF g.prev >= 0 /\ iter - g.prev < g.period THEN g
  ELSE LET n == Unit(g.axis)
           P == [i \in 1..3 |-> RDiv(F[i] * n[i], N)]
           err == Len3(P) - g.target
           it == g.it + err * g.kI     \* x100
           u == RDiv(err * g.kP + it + (err - g.err) * g.kD, 100)
           c == IF Abs(u) > g.max THEN (IF u < 0 THEN -g.max ELSE g.max) ELSE u
       IN [g EXCEPT !.prev = iter, !.it = it, !.err = err, !.cur = c]
Motion(g, p, e) ==
  CASE g.kind = "trans" -> [v |-> Along(g, g.vel), w |-> Zero]
    [] g.kind = "harm" -> [v |-> [i \in 1..3 |-> Harm(g.A[i], g.a[i], g.b[i], e.t)], w |-> Zero]
    [] g.kind \in {"rot", "hrot"} -> Turning(g, Om(g, e.t), p, e.m)
    [] g.kind \in {"helix", "ihelix"} -> LET r == Turning([g EXCEPT !.zero = TRUE], Om(g, e.t), p, e.m) IN [r EXCEPT !.v = Add(r.v, Along(g, Lin(g, e.t)))]
    [] g.kind = "pedal" -> LET f2 == g.fi + g.om * e.m
                               d == <<M4(10 * g.radius, Cos(g.fi) - Cos(f2)), M4(10 * g.radius, Sin(g.fi) - Sin(f2)), 0>>
                           IN [v |-> Div(FromZ(Unit(g.axis), d), 10 * e.m), w |-> Zero]
    [] g.kind = "servo" -> [v |-> Along(g, g.cur), w |-> Zero]
Kin == {"trans", "harm", "rot", "hrot", "helix", "ihelix", "pedal", "servo", "comb"}
(* state of the bodies while a step goes on: B[id] = [p, v, w, f, t] *)
Ids(g, B) == LET s == Fld(g, "ids", <<>>) IN {s[k] : k \in DOMAIN s} \cap DOMAIN B
SumF(g, B) == FoldSet(LAMBDA b, a : Add(a, B[b].f), Zero, Ids(g, B))
Move(g, B, e, mem) == [b \in DOMAIN B |-> IF b \notin Ids(g, B) THEN B[b]
   ELSE LET ms == [k \in DOMAIN mem |-> Motion(mem[k], B[b].p, e)] IN
        [B[b] EXCEPT !.v = FoldLeft(LAMBDA s, x : Add(s, x.v), Zero, ms), !.w = FoldLeft(LAMBDA s, x : Add(s, x.w), Zero, ms)]]
Live(g) == SelectSeq(g.comb, LAMBDA c : ~c.dead)
\* direction of p from the axis through pt along ax
From(p, pt, ax) == LET n == Unit(ax)  L == Sub(p, pt)  al == Dot(n, L) \div N IN Sub(L, Div(Mul(n, al), N))
Dir(v) == Div(Mul(v, N \div 10), Len3(v))      \* unit, xN/10; v up to 100000
Heavy(g, b) == ~b.clump /\ (g.mask = 0 \/ b.mask & g.mask # 0)
E0(e, id) == e.before[CHOOSE k \in DOMAIN e.before : e.before[k].id = id]
Push(g, b, s, e) ==    \* force on body b in state s
  CASE g.kind = "force" -> g.f
    [] g.kind = "idf" -> Div(Mul(Unit(g.axis), Interpolate(g.ts, g.vs, e.t, g.wrap)), N)
    [] g.kind = "radial" -> LET r == From(s.p, g.pt, g.axis) IN IF Norm(r) = 0 THEN Zero ELSE Div(Mul(Dir(r), g.fn), N \div 10)
    [] g.kind = "drag" -> IF b.r = 0 THEN Zero ELSE Div(Mul([i \in 1..3 |-> RDiv(s.v[i] * Norm(s.v), 1000)], -(b.r * b.r * g.k)), 10000)
    [] g.kind = "ldrag" -> IF b.r = 0 THEN Zero ELSE Div(Mul(s.v, -(b.r * g.k)), 10000)
    [] g.kind = "grav" -> IF Heavy(g, b) THEN Mul(g.g, b.mass) ELSE Zero
    [] g.kind = "axial" -> LET r == From(s.p, g.pt, g.axis) IN IF ~Heavy(g, b) \/ Norm(r) = 0 THEN Zero ELSE Div(Mul(Dir(r), -(g.acc * b.mass)), N \div 10)
\* rounding of a direction from an axis
Slack(g, b, s) == IF g.kind \notin {"radial", "axial"} THEN 0
                  ELSE LET d == 1 + Len3(From(s.p, g.pt, g.axis)) IN (5 * (IF g.kind = "radial" THEN Abs(g.fn) ELSE Abs(g.acc) * b.mass)) \div d
ToCentre(g, B, id) == Dir(Sub(B[g.centre].p, B[id].p))
Central(g, B, e, id) ==
  LET att(q) == q # g.centre /\ Heavy(g, E0(e, q))
      one(q) == Div(Mul(ToCentre(g, B, q), g.acc * E0(e, q).mass), N \div 10)
  IN IF id = g.centre THEN (IF g.rec THEN FoldSet(LAMBDA q, s : Sub(s, one(q)), Zero, {q \in DOMAIN B : att(q)}) ELSE Zero)
     ELSE IF att(id) THEN one(id) ELSE Zero
\* the controller decides before it moves
Inner0(g, e, B, outer) == IF g.kind = "servo" THEN Servo(g, SumF(outer, B), e.iter) ELSE g
Act(g, B, e) ==
  IF g.dead THEN B
  ELSE IF g.kind = "comb" THEN Move(g, B, e, [k \in DOMAIN Live(g) |-> Inner0(Live(g)[k], e, B, g)])
  ELSE IF g.kind \in Kin THEN Move(g, B, e, <<Inner0(g, e, B, g)>>)
  ELSE IF g.kind = "torque" THEN [b \in DOMAIN B |-> IF b \in Ids(g, B) THEN [B[b] EXCEPT !.t = Add(@, g.f)] ELSE B[b]]
  ELSE IF g.kind = "central" THEN [b \in DOMAIN B |-> [B[b] EXCEPT !.f = Add(@, Central(g, B, e, b))]]
  ELSE IF g.kind = "disp" THEN [b \in DOMAIN B |-> IF b \notin Ids(g, B) THEN B[b] ELSE IF g.vels THEN [B[b] EXCEPT !.v = Div(g.mov, e.m), !.w = Div(Div(Mul(Unit(g.axis), g.ang), N), e.m)] ELSE [B[b] EXCEPT !.p = Add(@, g.mov)]]
  ELSE [b \in DOMAIN B |-> IF b \in Ids(g, B) \/ g.kind \in {"grav", "axial"} THEN [B[b] EXCEPT !.f = Add(@, Push(g, E0(e, b), B[b], e)), !.q = @ + Slack(g, E0(e, b), B[b])] ELSE B[b]]
\* inner state after the step
Inner(g, e, B, outer) == CASE g.kind \in {"helix", "ihelix"} -> [g EXCEPT !.turned = @ + Om(g, e.t) * e.m]
                           [] g.kind = "pedal" -> [g EXCEPT !.fi = @ + g.om * e.m]
                           [] OTHER -> Inner0(g, e, B, outer)
Acted(g, e, B) == IF g.dead \/ Len(Fld(g, "ids", <<0>>)) = 0 THEN g
                  ELSE IF g.kind = "comb" THEN [g EXCEPT !.comb = [k \in DOMAIN @ |-> IF @[k].dead THEN @[k] ELSE Inner(@[k], e, B, g)]]
                  ELSE IF g.kind \in Kin THEN Inner(g, e, B, g) ELSE g
RECURSIVE Run(_, _, _, _)
Run(k, B, gs, e) ==
  LET B1 == IF k = late THEN [b \in DOMAIN B |-> [B[b] EXCEPT !.p = Add(@, Mul(B[b].v, e.m))]] ELSE B IN
  IF k > Len(gs) THEN [B |-> B1, gs |-> gs] ELSE Run(k + 1, Act(gs[k], B1, e), [gs EXCEPT ![k] = Acted(gs[k], e, B1)], e)
Start(e) == [id \in {e.before[k].id : k \in DOMAIN e.before} |-> LET b == E0(e, id) IN [p |-> b.p, v |-> b.v, w |-> b.w, f |-> Zero, t |-> Zero, q |-> 0]]
Tol(x) == 3 + Len3(x) \div 500
Check(e, r) == \A k \in DOMAIN e.after : LET a == e.after[k]  s == r.B[a.id] IN
  /\ Holds("velocity of body " \o ToString(a.id), Near(a.v, s.v, Tol(s.v)), <<a, s>>)
  /\ Holds("spin of body " \o ToString(a.id), Near(a.w, s.w, Tol(s.w)), <<a, s>>)
  /\ Holds("force on body " \o ToString(a.id), Near(a.f, s.f, Tol(s.f) + e.nf + s.q), <<a, s>>)
  /\ Holds("torque on body " \o ToString(a.id), Near(a.t, s.t, Tol(s.t)), <<a, s>>)
  /\ Holds("position of body " \o ToString(a.id), Near(a.p, s.p, 3 + 4 * e.m + Len3(s.v) \div 200), <<a, s>>)
Turned(g) == IF g.kind = "comb" THEN FoldLeft(LAMBDA x, c : x + (IF c.kind \in {"helix", "ihelix"} THEN c.turned ELSE 0), 0, g.comb) ELSE IF g.kind \in {"helix", "ihelix"} THEN g.turned ELSE 0
Init == l = 1 /\ eng = <<>> /\ late = 0
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "new" -> eng' = e.engines /\ late' = e.late
       [] e.op = "set" -> /\ eng' = [eng EXCEPT ![e.k] = [x \in DOMAIN @ |-> IF x \in DOMAIN e.new THEN e.new[x] ELSE @[x]]] /\ UNCHANGED late
       [] e.op = "step" -> LET r == Run(1, Start(e), eng, e) IN
                           /\ TRUE = Check(e, r)
                           /\ TRUE = (\A k \in DOMAIN r.gs : Holds("angle turned", Abs(Turned(r.gs[k]) - e.turned[k]) <= 20 + Abs(e.turned[k]) \div 200, <<k, e.turned, r.gs[k]>>))
                           /\ eng' = r.gs /\ UNCHANGED late
Spec == Init /\ [][Next]_vars
=============================================================================
