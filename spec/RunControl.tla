----------------------------- MODULE RunControl -----------------------------
(* O.run, O.step, O.pause, O.wait, O.stopAtIter, O.stopAtTime.               *)
(* Time and time step in units of 1/8 s.  An engine may pause the run or     *)
(* set stopAtIter while a step is running (arm).                             *)
EXTENDS Integers, Sequences
\* s = [iter, time, dt, si (stopAtIter), st (stopAtTime), arm, half (a step is partly done), log]
Fresh == [iter |-> 0, time |-> 0, dt |-> 1, si |-> 0, st |-> 0, arm |-> [what |-> "no", at |-> 0, to |-> 0], half |-> FALSE, log |-> <<>>]
\* one complete step: the reporting engine runs with the iteration number before the step
Fires(s) == s.arm.what # "no" /\ s.arm.at = s.iter
AfterStep(s) == [s EXCEPT !.iter = @ + 1, !.time = @ + s.dt, !.half = FALSE, !.log = Append(@, s.iter),
                          !.si = IF Fires(s) /\ s.arm.what = "si" THEN s.arm.to ELSE @,
                          !.st = IF Fires(s) /\ s.arm.what = "st" THEN s.arm.to ELSE @,
                          !.dt = IF Fires(s) /\ s.arm.what = "dt" THEN s.arm.to ELSE @,
                          !.time = IF Fires(s) /\ s.arm.what = "dt" THEN s.time + s.arm.to ELSE s.time + s.dt,
                          !.arm = IF Fires(s) THEN Fresh.arm ELSE @]
Stops(s, t) == \/ Fires(s) /\ s.arm.what = "pause"
               \/ t.si > 0 /\ t.iter = t.si
               \/ t.st > 0 /\ s.time < t.st /\ t.time >= t.st
RECURSIVE Loop(_, _)
\* k bounds the number of steps: a run that does not stop is not one of the recorded ones
Loop(s, k) == LET t == AfterStep(s) IN IF Stops(s, t) \/ k = 0 THEN t ELSE Loop(t, k - 1)
RunN(s, n) == Loop(IF n > 0 THEN [s EXCEPT !.si = s.iter + n] ELSE s, 60)
=============================================================================
