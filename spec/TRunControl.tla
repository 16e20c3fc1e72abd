---------------------------- MODULE TRunControl -----------------------------
EXTENDS RunControl, TraceLib
VARIABLES l, s
Shown(x) == [iter |-> x.iter, time |-> x.time, si |-> x.si, st |-> x.st, log |-> x.log, half |-> x.half]
Do(x, e) == CASE e.op = "new"   -> Fresh
              [] e.op = "step"  -> AfterStep(x)
              [] e.op = "run"   -> RunN(x, e.n)
              [] e.op = "half"  -> [x EXCEPT !.half = TRUE]
              [] e.op = "si"    -> [x EXCEPT !.si = e.v]
              [] e.op = "st"    -> [x EXCEPT !.st = e.v]
              [] e.op = "dt"    -> [x EXCEPT !.dt = e.v]
              [] e.op = "arm"   -> [x EXCEPT !.arm = e.v]
              [] e.op = "time0" -> [x EXCEPT !.iter = 0, !.time = 0]
              [] OTHER -> x           \* pause, wait when nothing runs; save and load
Seq0(a, b) == [i \in 1..(b - a) |-> a + i - 1]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] y == Do([s EXCEPT !.log = <<>>], e) IN
           IF e.op = "async"    \* run, then paused from outside: whole steps only, none after it came to rest
           THEN LET f == e.post IN
                /\ Holds("steps of a paused run", f.iter >= s.iter /\ f.iter <= e.seen + 1 /\ f.time = s.time + (f.iter - s.iter) * s.dt
                                                   /\ f.log = Seq0(s.iter, f.iter) /\ ~f.half, e)
                /\ s' = [s EXCEPT !.iter = f.iter, !.time = f.time, !.log = f.log]
           ELSE Same(e.op, e.post, Shown(y)) /\ Holds("still running", ~e.running, e) /\ s' = y
Init == l = 1 /\ s = Fresh
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
