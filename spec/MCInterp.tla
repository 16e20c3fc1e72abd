------------------------------ MODULE MCInterp ------------------------------
(* The table look-up of the code starts from the segment used last and moves *)
(* from there; it must give the value of Interp.tla whatever was asked for   *)
(* before, also after the table has been exchanged.                          *)
EXTENDS Interp, FiniteSets
CONSTANTS MaxT, MaxLen, Vals
VARIABLES ts, vs, pos, last, val
vars == <<ts, vs, pos, last, val>>
Tables == {f \in UNION {[1..n -> 0..MaxT] : n \in 2..MaxLen} : \A i \in 1..Len(f) - 1 : f[i] < f[i + 1]}
RECURSIVE Move(_, _)
Move(p, t) == IF ts[p] > t THEN Move(p - 1, t) ELSE IF ts[p + 1] < t THEN Move(p + 1, t) ELSE p
Lesser(a, b) == IF a < b THEN a ELSE b
Ask(t) == /\ last' = t
          /\ IF t <= ts[1] THEN pos' = 1 /\ val' = vs[1]
             ELSE IF t >= ts[Len(ts)] THEN pos' = Len(ts) - 1 /\ val' = vs[Len(ts)]
             ELSE LET p == Move(Lesser(pos, Len(ts) - 1), t) IN
                  pos' = p /\ val' = vs[p] + RDiv((vs[p + 1] - vs[p]) * (t - ts[p]), ts[p + 1] - ts[p])
          /\ UNCHANGED <<ts, vs>>
Init == ts \in Tables /\ vs \in [1..Len(ts) -> Vals] /\ pos = 1 /\ last = 0 /\ val = vs[1]
Change == \E f \in {<<0, 2>>, <<0, 1, 3>>, <<1, 2, 4, 5>>} : ts' = f /\ vs' = [i \in 1..Len(f) |-> (i * i) % 5] /\ last' = 0 /\ val' = vs'[1] /\ UNCHANGED pos
Next == (\E t \in 0..MaxT + 1 : Ask(t)) \/ Change
Spec == Init /\ [][Next]_vars
Right == val = Value(ts, vs, last)
InTable == pos >= 1
Wrapped == \A t \in 0..2 * MaxT : LET w == Wrap(ts, t) IN w >= ts[1] /\ w < ts[Len(ts)] /\ (t - w) % (ts[Len(ts)] - ts[1]) = 0
=============================================================================
