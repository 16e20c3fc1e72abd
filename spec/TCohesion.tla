------------------------------ MODULE TCohesion ------------------------------
(* Recorded steps of cohesive contacts against Cohesion.tla.  Logged          *)
(* integers: as in Vec3.tla; penetration and plastic displacement (un, unp)   *)
(* x10000, kn x100, forces and adhesions x100, moments x10, rotations x10000, *)
(* cohesions x10000, coefficients x1000.                                      *)
EXTENDS Vec3, CohesionLaw, TraceLib
VARIABLES l, con, now
vars == <<l, con, now>>
Q(x, k) == IF x >= 0 THEN (x + k \div 2) \div k ELSE -((-x + k \div 2) \div k)
Lower(a, b) == IF a < b THEN a ELSE b
Cl(a, b, t) == Abs(a - b) <= t
Key(c) == <<c.id1, c.id2>>
Is(c) == Key(c) \in DOMAIN con
\* what a contact is given when it becomes cohesive
Adh(e, c, what) == LET m1 == e.mats[c.id1 + 1]  m2 == e.mats[c.id2 + 1]  r == Lower(c.r1, c.r2) IN (Lower(m1[what], m2[what]) * r * r) \div 100
Fresh(e, c, glue) == LET m1 == e.mats[c.id1 + 1]  m2 == e.mats[c.id2 + 1] IN
  [na |-> IF glue THEN Adh(e, c, "nc") ELSE 0, sa |-> IF glue THEN Adh(e, c, "sc") ELSE 0, broken |-> ~glue, fragile |-> IF glue THEN m1.fragile \/ m2.fragile ELSE TRUE,
   unp |-> 0, unpMax |-> 0, only |-> FALSE, n |-> c.n, fs |-> <<0, 0, 0>>, mb |-> <<0, 0, 0>>, mt |-> <<0, 0, 0>>, rot |-> <<0, 0, 0>>, new |-> TRUE, init |-> FALSE]
BothCohesive(e, c) == e.mats[c.id1 + 1].cohesive /\ e.mats[c.id2 + 1].cohesive
\* the state of the contact when the law is applied
Start(e, c) ==
  IF ~Is(c) THEN Fresh(e, c, (e.onNew \/ now) /\ BothCohesive(e, c))
  ELSE LET o == con[Key(c)] IN
       IF (now /\ BothCohesive(e, c)) \/ o.init
       THEN [o EXCEPT !.na = Adh(e, c, "nc"), !.sa = Adh(e, c, "sc"), !.broken = FALSE, !.fragile = e.mats[c.id1 + 1].fragile \/ e.mats[c.id2 + 1].fragile, !.rot = <<0, 0, 0>>, !.init = FALSE]
       ELSE o
Fn0(c, o) == Q((c.un - o.unp) * c.kn, 10000)
TolN(c, f) == 4 + Abs(f) \div 400 + c.kn \div 2000
\* a contact that is gone was pulled too hard
GoneOk(e, g) == LET o == Start(e, g)  f == Fn0(g, o)  t == TolN(g, f) IN
  /\ Holds("a lost contact was pulled beyond its adhesion", -f > o.na - t, <<g, o, f>>)
  /\ Holds("a plastic contact is lost only beyond the largest displacement", o.fragile \/ (o.unpMax >= 0 /\ -(g.un + (o.na * 10000) \div g.kn) > o.unpMax - 200), <<g, o>>)
Elast(c, e) == LET m1 == e.mats[c.id1 + 1]  m2 == e.mats[c.id2 + 1]
                   H(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (2 * a * b) \div (a + b)
               IN /\ Holds("normal stiffness", Cl(c.kn, Q(H(m1.E * c.r1, m2.E * c.r2), 10), 3 + c.kn \div 300), c)
                  /\ Holds("shear stiffness", Cl(c.ks, H((m1.E * c.r1 * m1.nu) \div 1000, (m2.E * c.r2 * m2.nu) \div 1000), 12 + c.ks \div 100), c)
                  /\ Holds("bending stiffness", Cl(c.kr, (c.r1 * c.r2 * ((c.ks * H(m1.akr, m2.akr)) \div 1000)) \div 1000, 20 + c.kr \div 40), c)
                  /\ Holds("twist stiffness", Cl(c.ktw, (c.r1 * c.r2 * ((c.ks * H(m1.akt, m2.akt)) \div 1000)) \div 1000, 20 + c.ktw \div 40), c)
                  /\ Holds("rolling and twisting limits", Cl(c.roll, Lower(m1.er * c.r1, m2.er * c.r2), 1) /\ Cl(c.twist, Lower(m1.et * c.r1, m2.et * c.r2), 1), c)
                  /\ Holds("friction", Cl(c.mu, Lower(m1.mu, m2.mu), 1), c)
\* trial shear force, with creep
CohTrial(c, o) == LET f == [i \in 1..3 |-> o.fs[i] - Q(o.fs[i] * c.creep, 10000)] IN Trial([c EXCEPT !.un = Q(c.un, 100)], IF o.new THEN <<>> ELSE <<[o EXCEPT !.fs = f]>>)
Scale(t, m, k) == [i \in 1..3 |-> (t[i] * ((m * 10000) \div k)) \div 10000]
Law(e, c) ==
  LET o == Start(e, c)
      f0 == Fn0(c, o)  tn == TolN(c, f0)
      y == Pulled(f0, o.na)
      F == IF y THEN -o.na ELSE f0
      t == CohTrial(c, o)  k == Norm(t)
      s == Strength(F, o.sa, c.mu, o.only)
      ts == 8 + Norm(c.fs) \div 500 + (tn * c.mu) \div 1000 + k \div 500
      over == k > s + ts  under == k < s - ts
      br == over /\ o.fragile /\ ~o.broken
      m == IF br THEN Residual(F, c.mu) ELSE s
  IN /\ Holds("a contact pulled beyond its adhesion is lost", ~(o.fragile /\ -f0 > o.na + tn), <<c, o, f0>>)
     /\ Holds("a plastic contact drawn beyond the largest displacement is lost", ~(~o.fragile /\ -f0 > o.na + tn /\ o.unpMax >= 0 /\ -(c.un + (o.na * 10000) \div c.kn) > o.unpMax + 200), <<c, o, f0>>)
     /\ Holds("plastic normal displacement", IF ~o.fragile /\ -f0 > o.na + tn THEN Cl(c.unp, c.un + (o.na * 10000) \div c.kn, 60) ELSE -f0 > o.na - tn \/ Cl(c.unp, o.unp, 1), <<c, o, f0>>)
     /\ (over => /\ Holds("bond breaks in shear", c.broken = (br \/ o.broken), <<c, o, t, s>>)
                 /\ Holds("strength left after breaking", IF br THEN c.na = 0 /\ c.sa = 0 ELSE Cl(c.na, o.na, 2 + o.na \div 200) /\ Cl(c.sa, o.sa, 2 + o.sa \div 200), <<c, o>>)
                 /\ Holds("shear force at the limit", Near(c.fs, Scale(t, m, k), 2 * ts), <<c, o, t, m>>)
                 /\ Holds("normal force of a yielding contact", IF F < -tn THEN c.fn = 0 ELSE Cl(c.fn, F, tn + 2) \/ (F < tn /\ c.fn = 0), <<c, F>>))
     /\ (under => /\ Holds("bond keeps its state", c.broken = o.broken /\ Cl(c.na, o.na, 2 + o.na \div 200) /\ Cl(c.sa, o.sa, 2 + o.sa \div 200), <<c, o, t, s>>)
                  /\ Holds("shear force below the limit", Near(c.fs, t, ts), <<c, o, t>>)
                  /\ Holds("normal force", Cl(c.fn, F, tn + 2), <<c, F>>))
     /\ (~over /\ ~under => Holds("no bond appears", o.broken => c.broken, <<c, o>>))
     /\ Holds("fragility", c.fragile = o.fragile, <<c, o>>)
\* moments: only at bonded contacts unless asked for
TolM(e, c) == IF e.incr THEN 4 + c.kr \div 1000 + c.ktw \div 1000 + (Norm(c.mb) + Norm(c.mt)) \div 250
              ELSE 6 + c.kr \div 250 + c.ktw \div 250 + (Norm(c.mb) + Norm(c.mt)) \div 25
Part(v, n) == LET p == Dot(n, v) \div N IN Div(Mul(n, p), N)      \* component along n
Capped(m, lim, fn) == IF lim < 0 THEN m ELSE LET M == (lim * Abs(fn)) \div 10000  k == Norm(m) IN IF k > M /\ k > 0 THEN Scale(m, M, k) ELSE m
Moment(e, c) ==
  LET o == Start(e, c)
      rel == Sub(c.w1, c.w2)
      tw == Part(rel, c.n)  be == Sub(rel, tw)
      T(x, k) == [i \in 1..3 |-> Q(x[i] * k, 1000)]
      carry(x) == IF o.new THEN x ELSE Carried(c, [n |-> o.n, fs |-> x])
      mb == IF e.incr THEN Add(carry(o.mb), T(be, c.kr)) ELSE T(Sub(o.rot, Part(o.rot, c.n)), c.kr)
      mt == IF e.incr THEN Add(carry(o.mt), T(tw, c.ktw)) ELSE T(Part(o.rot, c.n), c.ktw)
      on == e.moments /\ (~c.broken \/ e.always)
  IN /\ Holds("bending moment", IF on THEN Near(c.mb, Capped(mb, c.roll, c.fn), TolM(e, c)) ELSE (o.new \/ c.mb = o.mb), <<c, o, mb>>)
     /\ Holds("twisting moment", IF on THEN Near(c.mt, Capped(mt, c.twist, c.fn), TolM(e, c)) ELSE (o.new \/ c.mt = o.mt), <<c, o, mt>>)
     /\ Holds("rolling strength", on /\ c.roll >= 0 => Norm(c.mb) <= (c.roll * Abs(c.fn)) \div 10000 + 4, c)
     /\ Holds("twisting strength", on /\ c.twist >= 0 => Norm(c.mt) <= (c.twist * Abs(c.fn)) \div 10000 + 4, c)
\* forces and torques handed to the bodies
Sum(S) == FoldLeft(LAMBDA a, b : Add(a, b), <<0, 0, 0>>, S)
Bodies(e) == \A b \in 1..Len(e.F) :
  LET C == SelectSeq(e.contacts, LAMBDA c : c.id1 = b - 1 \/ c.id2 = b - 1)
      sg(c) == IF c.id1 = b - 1 THEN -1 ELSE 1
      f(c) == Mul(Add(Div(Mul(c.n, c.fn), N), c.fs), sg(c))
      q(c) == LET on == e.moments /\ (~c.broken \/ e.always) IN
              Add(Div(Cross(IF c.id1 = b - 1 THEN c.c1 ELSE c.c2, f(c)), 1000), IF on THEN Mul(Add(c.mb, c.mt), sg(c)) ELSE <<0, 0, 0>>)
  IN /\ Holds("force on a body", Near(e.F[b], Sum([k \in 1..Len(C) |-> f(C[k])]), 4 * Len(C) + 2), <<b, e.F[b], [k \in 1..Len(C) |-> f(C[k])]>>)
     /\ Holds("torque on a body", LET s == Sum([k \in 1..Len(C) |-> q(C[k])]) IN Near(e.T[b], s, 8 * Len(C) + 6 + Norm(s) \div 100), <<b, e.T[b], [k \in 1..Len(C) |-> q(C[k])]>>)
Step(e) == /\ \A k \in DOMAIN e.contacts : Elast(e.contacts[k], e) /\ Law(e, e.contacts[k]) /\ Moment(e, e.contacts[k])
           /\ \A k \in DOMAIN e.gone : GoneOk(e, e.gone[k])
           /\ Bodies(e)
After(e) == [q \in {Key(e.contacts[k]) : k \in DOMAIN e.contacts} |->
   LET c == e.contacts[CHOOSE k \in DOMAIN e.contacts : Key(e.contacts[k]) = q]  o == Start(e, c)
   IN [na |-> c.na, sa |-> c.sa, broken |-> c.broken, fragile |-> c.fragile, unp |-> c.unp, unpMax |-> o.unpMax, only |-> o.only, n |-> c.n, fs |-> c.fs, mb |-> c.mb, mt |-> c.mt,
       rot |-> Add(o.rot, Sub(c.w1, c.w2)), new |-> FALSE, init |-> FALSE]]
Init == l = 1 /\ con = <<>> /\ now = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "new" -> con' = <<>> /\ now' = FALSE
       [] e.op = "glue" -> now' = TRUE /\ UNCHANGED con
       [] e.op = "attr" -> con' = [q \in DOMAIN con |-> IF q = <<e.id1, e.id2>> THEN [con[q] EXCEPT ![e.name] = e.v] ELSE con[q]] /\ UNCHANGED now
       [] e.op = "step" -> /\ TRUE = Step(e) /\ con' = After(e)
                           /\ now' = (now /\ Len(e.contacts) + Len(e.gone) = 0)     \* waits for contacts
Spec == Init /\ [][Next]_vars
=============================================================================
