------------------------------ MODULE TimeStep ------------------------------
(* Automatic time step, in integers.  lim is the limit of stability of the   *)
(* present contacts (0: nothing to compute from), which the simulation may   *)
(* change in any way from step to step; Grow is how far the time step may go *)
(* up in one update.                                                         *)
EXTENDS Integers
Lesser(a, b) == IF a < b THEN a ELSE b
None == 0
\* time step set by an update
Update(lim, dt, prev, once, max, default) ==
  IF lim # None THEN [dt |-> Lesser(Lesser(lim, max), IF prev = None THEN lim ELSE prev + (prev \div 20)), once |-> TRUE]
  ELSE [dt |-> IF once THEN dt ELSE default, once |-> once]
Due(active, once, iter, interval) == active /\ (~once \/ iter % interval = 0 \/ iter < 2)
=============================================================================
