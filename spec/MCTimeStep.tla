----------------------------- MODULE MCTimeStep -----------------------------
EXTENDS TimeStep
CONSTANTS Lims, Max, Default, Interval, MaxIter
VARIABLES iter, lim, dt, prev, once, active, ran, same
vars == <<iter, lim, dt, prev, once, active, ran, same>>
Init == iter = 0 /\ lim \in Lims /\ dt = 7 /\ prev = None /\ once = FALSE /\ active \in BOOLEAN /\ ran = FALSE /\ same = 0
Step == /\ iter < MaxIter /\ iter' = iter + 1
        /\ lim' \in Lims /\ active' \in BOOLEAN
        /\ same' = IF lim' = lim /\ active /\ active' THEN same + 1 ELSE 0
        /\ IF Due(active', once, iter, Interval)
           THEN LET u == Update(lim', dt, prev, once, Max, Default) IN
                /\ dt' = u.dt /\ once' = u.once /\ ran' = TRUE
                /\ prev' = IF lim' # None THEN u.dt ELSE prev
           ELSE ran' = FALSE /\ UNCHANGED <<dt, prev, once>>
Spec == Init /\ [][Step]_vars
\* what the engine is there for
Stable == ran /\ lim # None => dt <= lim /\ dt <= Max
Slowly == [][once => dt' <= dt + (dt \div 20)]_vars
\* and it does not stay small for ever: 40, 42, 44, ... reaches 60 in ten updates
Arrives == same >= 10 * Interval /\ lim # None => dt = Lesser(lim, Max)
=============================================================================
