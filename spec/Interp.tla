------------------------------- MODULE Interp -------------------------------
(* Piecewise linear tables: the first value before the first time, the last  *)
(* value after the last one, linear between; optionally repeated.            *)
EXTENDS Integers, Sequences
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Wrap(ts, t) == ts[1] + ((t - ts[1]) % (ts[Len(ts)] - ts[1]))
Value(ts, vs, t) ==
  IF t <= ts[1] THEN vs[1] ELSE IF t >= ts[Len(ts)] THEN vs[Len(ts)]
  ELSE LET k == CHOOSE k \in 1..Len(ts) - 1 : ts[k] <= t /\ t < ts[k + 1]
       IN vs[k] + RDiv((vs[k + 1] - vs[k]) * (t - ts[k]), ts[k + 1] - ts[k])
Interpolate(ts, vs, t, wrap) == Value(ts, vs, IF wrap THEN Wrap(ts, t) ELSE t)
=============================================================================
