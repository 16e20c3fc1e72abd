----------------------------- MODULE PeriodicRun ----------------------------
(* When a periodic engine runs.  p = its parameters [ip, vp, rp, nDo, init,  *)
(* first]; c = its clock [n (activations), it, t (of the last one)].  rp is  *)
(* "tiny" (elapsed at any later call), "huge" (never) or "off".  Times in    *)
(* units of 1/8 s; 0 switches a period off, nDo < 0 means no limit.          *)
EXTENDS Integers
Zero == [n |-> 0, it |-> 0, t |-> 0]
Due(p, c, it, t) == (p.ip > 0 /\ it - c.it >= p.ip) \/ (p.vp > 0 /\ t - c.t >= p.vp) \/ p.rp = "tiny"
\* what a call at iteration it, time t does: [run, c]
Call(p, c0, it, t) ==
  IF p.first > 0 /\ c0.n = 0
  THEN IF it = p.first THEN [run |-> TRUE, c |-> [n |-> 1, it |-> it, t |-> t]] ELSE [run |-> FALSE, c |-> c0]
  ELSE LET c == IF it < c0.it THEN [c0 EXCEPT !.n = 0] ELSE c0 IN      \* time was set back: start again
       IF c.n = 0 THEN [run |-> p.init, c |-> [n |-> 1, it |-> it, t |-> t]]
       ELSE IF (p.nDo < 0 \/ c.n < p.nDo) /\ Due(p, c, it, t) THEN [run |-> TRUE, c |-> [n |-> c.n + 1, it |-> it, t |-> t]]
       ELSE [run |-> FALSE, c |-> c]
=============================================================================
