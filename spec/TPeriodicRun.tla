---------------------------- MODULE TPeriodicRun ----------------------------
EXTENDS PeriodicRun, TraceLib
VARIABLES l, P, C, dead      \* parameters, clocks and dead flags of the engines, in order
Init == l = 1 /\ P = <<>> /\ C = <<>> /\ dead = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new"  -> P' = e.p /\ C' = [i \in 1..Len(e.p) |-> Zero] /\ dead' = [i \in 1..Len(e.p) |-> FALSE]
             [] e.op = "step" -> LET r == [i \in 1..Len(P) |-> IF dead[i] THEN [run |-> FALSE, c |-> C[i]] ELSE Call(P[i], C[i], e.it, e.t)] IN
                                 /\ Same("engines that ran at iteration " \o ToString(e.it), e.ran, SelectSeq([i \in 1..Len(P) |-> i], LAMBDA i : r[i].run))
                                 /\ Same("activations counted", e.n, [i \in 1..Len(P) |-> r[i].c.n])
                                 /\ C' = [i \in 1..Len(P) |-> r[i].c] /\ UNCHANGED <<P, dead>>
             [] e.op = "add"  -> P' = Append(P, e.p) /\ C' = Append(C, Zero) /\ dead' = Append(dead, FALSE)
             [] e.op = "set"  -> P' = [P EXCEPT ![e.i] = e.p] /\ UNCHANGED <<C, dead>>
             [] e.op = "dead" -> dead' = [dead EXCEPT ![e.i] = e.v] /\ UNCHANGED <<P, C>>
             [] OTHER -> UNCHANGED <<P, C, dead>>    \* resetTime, save and load: seen only through the iteration numbers
Spec == Init /\ [][Next]_<<l, P, C, dead>>
=============================================================================
