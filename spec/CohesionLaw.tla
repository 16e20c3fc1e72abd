---------------------------- MODULE CohesionLaw -----------------------------
(* The scalar part of the cohesive law, shared by the model (Cohesion.tla)   *)
(* and the check of recorded runs (TCohesion.tla).  Forces in compression    *)
(* are positive.                                                             *)
EXTENDS Integers
\* what happens to a contact whose normal force would be fn
Pulled(fn, na) == -fn > na
Lost(fn, na, fragile) == Pulled(fn, na) /\ fragile
\* shear strength: cohesion plus friction (mu in thousandths), or cohesion alone while there is some
Max0(x) == IF x > 0 THEN x ELSE 0
Strength(fn, sa, mu, only) == Max0(sa + (IF only /\ sa # 0 THEN 0 ELSE (fn * mu) \div 1000))
Residual(fn, mu) == Max0((fn * mu) \div 1000)
\* shear strength after testing a trial force of size fs: a fragile bond breaks and only friction is left
Breaks(fs, fn, sa, mu, only, fragile, broken) == fs > Strength(fn, sa, mu, only) /\ fragile /\ ~broken
=============================================================================
