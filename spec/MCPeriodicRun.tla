--------------------------- MODULE MCPeriodicRun ----------------------------
\* the properties of the activation rule: every due period is used, none is shorter, nDo is a limit
EXTENDS PeriodicRun, Sequences
VARIABLES p, c, it, t, runs
vars == <<p, c, it, t, runs>>
Par == [ip : 0..3, vp : {0, 2, 3}, rp : {"off"}, nDo : {-1, 1, 2, 3}, init : BOOLEAN, first : {0, 2}]
Init == p \in Par /\ c = Zero /\ it = 0 /\ t = 0 /\ runs = <<>>
Step(dt) == /\ it < 7 /\ LET r == Call(p, c, it, t) IN c' = r.c /\ runs' = IF r.run THEN Append(runs, <<it, t>>) ELSE runs
            /\ it' = it + 1 /\ t' = t + dt /\ UNCHANGED p
Next == Step(1) \/ Step(2)
Spec == Init /\ [][Next]_vars
Limit == p.nDo >= 0 => Len(runs) <= p.nDo
Spaced == \A i \in 1..(Len(runs) - 1) : LET a == runs[i] b == runs[i + 1] IN (p.ip > 0 /\ b[1] - a[1] >= p.ip) \/ (p.vp > 0 /\ b[2] - a[2] >= p.vp)
EveryPeriod == (p.ip > 0 /\ p.nDo < 0 /\ p.vp = 0 /\ p.first = 0 /\ it > 0) => Len(runs) = (it - 1) \div p.ip + (IF p.init THEN 1 ELSE 0)
=============================================================================
