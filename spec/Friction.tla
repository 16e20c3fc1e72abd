------------------------------ MODULE Friction ------------------------------
(* One frictional contact, one tangential direction: the elastic trial force *)
(* is capped at the Coulomb limit, separation forgets it.                    *)
EXTENDS Integers
CONSTANTS Ks, Kn, MuNum, MuDen, MaxUn, MaxDu, MaxF
VARIABLES un,      \* penetration; 0: no contact
          fs,      \* shear force
          disp,    \* tangential displacement since the contact began or last slipped
          base,    \* shear force then
          slip     \* last step slipped
vars == <<un, fs, disp, base, slip>>
Limit(u) == (MuNum * Kn * u) \div MuDen
Cap(t, m) == IF t > m THEN m ELSE IF t < -m THEN -m ELSE t
Abs(x) == IF x < 0 THEN -x ELSE x
Init == un = 0 /\ fs = 0 /\ disp = 0 /\ base = 0 /\ slip = FALSE
\* one step: the penetration becomes u and the surfaces move by d relative to each other
Step(u, d) == LET f0 == IF un = 0 THEN 0 ELSE fs
                  t == f0 - Ks * d
                  f == Cap(t, Limit(u))
                  new == un = 0
              IN /\ u > 0
                 /\ un' = u /\ fs' = f /\ slip' = (f # t)
                 /\ IF f # t THEN base' = f /\ disp' = 0
                    ELSE IF new THEN base' = 0 /\ disp' = d
                    ELSE base' = base /\ disp' = disp + d
Separate == un > 0 /\ un' = 0 /\ fs' = 0 /\ disp' = 0 /\ base' = 0 /\ slip' = FALSE
Next == Separate \/ \E u \in 1..MaxUn, d \in -MaxDu..MaxDu : Step(u, d)
Spec == Init /\ [][Next]_vars
Coulomb == Abs(fs) <= Limit(un)
NoContactNoForce == un = 0 => fs = 0
\* sticking is elastic: the force depends on the displacement and not on the way
Elastic == fs = base - Ks * disp
\* sliding never gives energy back: the trial force exceeds the force in its own direction
Dissipates == [][\A u \in 1..MaxUn, d \in -MaxDu..MaxDu : (Step(u, d) /\ slip') => ((IF un = 0 THEN 0 ELSE fs) - Ks * d - fs') * fs' >= 0]_vars
=============================================================================
