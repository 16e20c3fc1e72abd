----------------------------- MODULE TTimeStep ------------------------------
(* Recorded time steps against TimeStep.tla.  Stiffnesses, dampings, masses  *)
(* and inertias x1000, times x10000, normals xN, safety factor x1000.        *)
EXTENDS Vec3, TimeStep, TraceLib
VARIABLES l, prev, once, cur, def
vars == <<l, prev, once, cur, def>>
Big == 2000000000
RECURSIVE Ratio(_, _)       \* a / b x100000
Ratio(a, b) == IF b <= 0 THEN Big ELSE IF a > 20000 THEN Ratio(a \div 4, b \div 4) ELSE (a * 100000) \div b
Root(q) == IF q > 200000000 THEN Big ELSE IF q > 2000000 THEN 10 * Bis((q \div 100) * 1000, 0, 46000) ELSE Bis(q * 1000, 0, 46000)      \* sqrt, x10000
Sq(n, i) == (n[i] * n[i]) \div (N * 2)         \* x10000
Part(s, k) == IF Abs(k) < 200000 THEN (s * k) \div 10000 ELSE (s * (k \div 10)) \div 1000
Diag(n, kn, ks) == [i \in 1..3 |-> ks + Part(Sq(n, i), kn - ks)]
RDiag(n, ks) == [i \in 1..3 |-> Part(10000 - Sq(n, i), ks)]
Zero == <<0, 0, 0>>
Sum(S) == FoldLeft(LAMBDA a, b : Add(a, b), Zero, S)
Parts(e, b) == IF b.clump THEN {b.members[k] : k \in DOMAIN b.members} ELSE {b.id}
Mine(e, b) == SelectSeq(e.contacts, LAMBDA c : c.force)
\* a contact counts once for each of its bodies in the clump
Sides(c, P) == (IF c.id1 \in P THEN <<c.r1>> ELSE <<>>) \o (IF c.id2 \in P THEN <<c.r2>> ELSE <<>>)
Stiff(e, b, kn, ks) == LET P == Parts(e, b) IN Sum([k \in DOMAIN e.contacts |-> LET c == e.contacts[k] IN IF c.force THEN Mul(Diag(c.n, c[kn], c[ks]), Len(Sides(c, P))) ELSE Zero])
RStiff(e, b, ks, moments) == LET P == Parts(e, b) IN
  Sum([k \in DOMAIN e.contacts |-> LET c == e.contacts[k]  S == Sides(c, P) IN
       IF ~c.force THEN Zero ELSE Sum([j \in DOMAIN S |-> Add(Mul(RDiag(c.n, c[ks]), S[j] * S[j]), IF moments THEN Diag(c.n, c.ktw, c.kr) ELSE Zero)])])
Most(v) == LET m == IF v[1] > v[2] THEN v[1] ELSE v[2] IN IF m > v[3] THEN m ELSE v[3]
Least3(a, b, c) == Lesser(a, Lesser(b, c))
\* limit of stability of one body times the safety factor, None if nothing touches it
BodyLimit(e, b) ==
  LET K == Stiff(e, b, "kn", "ks")  R == RStiff(e, b, "ks", TRUE)
      q == Lesser(Ratio(b.m, Most(K)), Least3(Ratio(b.I[1], R[1]), Ratio(b.I[2], R[2]), Ratio(b.I[3], R[3])))
      el == IF K = Zero THEN None ELSE (((Root(q) * 141) \div 100) * e.safety) \div 1000
      C == Stiff(e, b, "cn", "cs")  D == RStiff(e, b, "cs", FALSE)
      v == Lesser(Ratio(b.m, Most(C)), Least3(Ratio(b.I[1], D[1]), Ratio(b.I[2], D[2]), Ratio(b.I[3], D[3])))
      vi == IF v = Big THEN None ELSE ((v \div 10) * e.safety * 2) \div 1000
  IN IF ~e.visc \/ vi = None THEN el ELSE IF el = None THEN vi ELSE Lesser(el, vi)
Limit(e) == LET L == {BodyLimit(e, b) : b \in {e.bodies[k] : k \in {j \in DOMAIN e.bodies : e.bodies[j].free}}} \ {None}
            IN IF L = {} THEN None ELSE CHOOSE x \in L : \A y \in L : x <= y
\* time a pressure wave takes through the smallest sphere
PWave(e) == LET S == {k \in DOMAIN e.bodies : e.bodies[k].r > 0}
                T == {Root(Ratio(e.bodies[k].m, (e.bodies[k].r * e.bodies[k].E * 419) \div 100)) : k \in S}
            IN IF S = {} THEN 10000 ELSE CHOOSE x \in T : \A y \in T : x <= y
Close(a, b) == Abs(a - b) <= 3 + (a + b) \div 250
Default(e) == IF def >= 0 THEN def ELSE (e.safety * PWave(e)) \div 1000
Step(e) ==
  IF Due(e.active, once, e.iter, e.interval)
  THEN LET L == Limit(e)
           u == Update(L, e.dt0, prev, once, IF e.max < 0 THEN Big ELSE e.max, Default(e))
       IN Holds("time step", Close(e.dt, u.dt), <<e.dt, u, L, prev>>)
  ELSE Holds("time step kept", e.dt = e.dt0, <<e.dt0, e.dt>>)
Init == l = 1 /\ prev = None /\ once = FALSE /\ cur = 0 /\ def = -1
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "new" -> prev' = None /\ once' = FALSE /\ cur' = 0 /\ def' = e.def
       [] e.op = "step" -> LET due == Due(e.active, once, e.iter, e.interval)  L == Limit(e) IN
            /\ TRUE = Step(e) /\ cur' = e.dt
            /\ prev' = (IF due /\ L # None THEN e.dt ELSE prev)
            /\ once' = (once \/ (due /\ L # None))
            /\ def' = (IF due THEN Default(e) ELSE def)
Spec == Init /\ [][Next]_vars
=============================================================================
