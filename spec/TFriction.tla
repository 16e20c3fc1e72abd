------------------------------ MODULE TFriction ------------------------------
(* The law of Friction.tla in three dimensions on recorded steps: the shear  *)
(* force is carried along with the contact, changed by the relative          *)
(* tangential motion of the surfaces, capped at the Coulomb limit.           *)
(* Logged integers: normals xN, velocities xV, forces xF, stiffnesses x1000, *)
(* lengths x100, friction coefficient x1000, energies x10.                   *)
EXTENDS Vec3, TraceLib
VARIABLES l,
          con    \* contacts at the end of the last step: <<id1, id2>> -> [n, fs]
Tol(c) == 6 + Norm(c.fs) \div 800
Law(c, old) ==
  LET t == Trial(c, old)  m == (c.mu * c.fnn) \div 1000  k == Norm(t)  e == Tol(c)
  IN IF k < m - e THEN Holds("sticking contact: trial force", Near(c.fs, t, e), <<c, old, t>>)
     ELSE IF k > m + e THEN Holds("sliding contact: force at the limit", Near(c.fs, [i \in 1..3 |-> (t[i] * ((m * 10000) \div k)) \div 10000], e), <<c, old, t, m>>)
     ELSE Holds("contact close to the limit", Near(c.fs, t, 3 * e), <<c, old, t, m>>)
Normal(c) == Holds("normal force", Abs(c.fnn - (IF c.un > 0 THEN (c.un * ((c.kn + 5) \div 10)) \div 100 ELSE 0)) <= 3 + (c.kn + c.fnn) \div 800, c)
Key(c) == <<c.id1, c.id2>>
Old(c) == IF Key(c) \in DOMAIN con THEN <<con[Key(c)]>> ELSE <<>>
Energy(e) == e.energy =>
  LET el == FoldLeft(LAMBDA s, c : s + (Dot(c.fs, c.fs) \div c.ks) \div 2 + ((c.fnn * c.fnn) \div c.kn) \div 2, 0, e.contacts)
      \* dissipation of this step: plastic displacement times force
      di == FoldLeft(LAMBDA s, c : LET t == Trial(c, Old(c)) IN s + Dot(Sub(t, c.fs), c.fs) \div c.ks, 0, e.contacts)
      slack == FoldLeft(LAMBDA s, c : s + 3 + (40 * Norm(c.fs) + 20 * c.fnn) \div c.ks, 0, e.contacts)
  IN /\ Holds("elastic energy", Abs(e.el - el) <= slack + el \div 100, <<e.el, el, slack>>)
     /\ Holds("dissipated energy", Abs(e.di - di) <= slack + di \div 50, <<e.di, di, slack>>)
     /\ Holds("dissipation is never negative", e.di >= -1, e.di)
Step(e) == /\ \A k \in 1..Len(e.contacts) : LET c == e.contacts[k] IN Normal(c) /\ Law(c, Old(c))
           /\ Energy(e)
After(e) == LET S == {k \in 1..Len(e.contacts) : TRUE} IN
            [q \in {Key(e.contacts[k]) : k \in S} |-> LET c == e.contacts[CHOOSE k \in S : Key(e.contacts[k]) = q] IN [n |-> c.n, fs |-> c.fs]]
Init == l = 1 /\ con = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "new" THEN con' = <<>> ELSE TRUE = Step(e) /\ con' = After(e)
Spec == Init /\ [][Next]_<<l, con>>
=============================================================================
