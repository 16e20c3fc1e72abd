------------------------------ MODULE Cohesion ------------------------------
(* One contact, motion in the normal direction and in one tangential         *)
(* direction, stiffnesses 1 (friction in thousandths).                       *)
EXTENDS CohesionLaw
CONSTANTS NA, SA, Mu, MaxU, Fragile, UnpMax
VARIABLES un, unp, fs, na, sa, state, fn
vars == <<un, unp, fs, na, sa, state, fn>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
None == state = "none"
Init == un = 0 /\ unp = 0 /\ fs = 0 /\ na = 0 /\ sa = 0 /\ state = "none" /\ fn = 0
Gone == state' = "none" /\ fs' = 0 /\ fn' = 0 /\ na' = 0 /\ sa' = 0 /\ unp' = 0
\* the law at a new penetration u and tangential displacement d, with adhesions N, S
Law(u, d, N, S, st, p, f0) ==
  LET fnt == u - p IN
  IF Lost(fnt, N, Fragile) THEN Gone
  ELSE LET y == Pulled(fnt, N)
           F == IF y THEN -N ELSE fnt
           p2 == IF y THEN u + N ELSE p
           t == f0 + d
           s == Strength(F, S, Mu, FALSE)
           b == Breaks(Abs(t), F, S, Mu, FALSE, Fragile, st = "broken")
           m == IF b THEN Residual(F, Mu) ELSE s
       IN IF y /\ UnpMax >= 0 /\ -p2 > UnpMax THEN Gone
          ELSE /\ fs' = (IF Abs(t) > s THEN Sgn(t) * m ELSE t)
               /\ state' = (IF b THEN "broken" ELSE st)
               /\ na' = (IF b THEN 0 ELSE N) /\ sa' = (IF b THEN 0 ELSE S) /\ unp' = p2
               /\ fn' = (IF Abs(t) > s /\ F < 0 THEN 0 ELSE F)
Move(dn, ds, glue) ==
  LET u == un + dn IN
  /\ u \in -MaxU..MaxU /\ un' = u
  /\ IF None /\ u <= 0 THEN Gone
     ELSE IF glue THEN Law(u, ds, NA, SA, "bonded", IF None THEN 0 ELSE unp, IF None THEN 0 ELSE fs)
     ELSE IF None THEN Law(u, ds, 0, 0, "broken", 0, 0)
     ELSE Law(u, ds, na, sa, state, unp, fs)
Next == \E dn \in {-1, 0, 1, 2}, ds \in {-1, 0, 1, 3}, g \in BOOLEAN : Move(dn, ds, g)
Small == unp \in -8..8
Glued == \E dn \in {-1, 0, 1, 2}, ds \in {-1, 0, 1, 3} : Move(dn, ds, TRUE)
Spec == Init /\ [][Next]_vars
Tension == fn >= -na
Coulomb == Abs(fs) <= Strength(fn, sa, Mu, FALSE) \/ (fn = 0 /\ Abs(fs) <= sa)
BrokenHasNothing == state = "broken" => fn >= 0 /\ na = 0 /\ sa = 0
NothingWithoutContact == None => fn = 0 /\ fs = 0
\* a contact that is broken or lost is not cohesive again unless cohesion is created anew
Irreversible == [][(state # "bonded" /\ state' = "bonded") => Glued]_vars
=============================================================================
