---------------------------- MODULE TForceStore -----------------------------
EXTENDS ForceStore, TraceLib
VARIABLE l
Init == FInit(0) /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new"    -> n' = e.n /\ add' = Nothing /\ perm' = Nothing
             [] e.op = "append" -> FAppend(e.k)
             [] e.op = "add"    -> FAdd(e.q, e.id, e.v)
             [] e.op = "perm"   -> FSetPerm(e.q, e.id, e.v)
             [] e.op = "addall" -> FAddAll(e.q, e.v)
             [] e.op = "reset"  -> FReset(e.all)
             [] e.op = "bad"    -> Same("id out of range", e.v, "IndexError") /\ FStay
             [] e.op = "get"    -> Same("value of " \o e.q, e.v, Total(e.q, e.id)) /\ FStay
             [] e.op = "getperm"-> Same("permanent value of " \o e.q, e.v, Get(perm[e.q], e.id)) /\ FStay
Spec == Init /\ [][Next]_<<fvars, l>>
=============================================================================
