------------------------------- MODULE Decomp -------------------------------
(* The message protocol of a distributed run (py/mpy.py): workers 1..N and   *)
(* the master 0.  near is the set of unordered pairs of ranks whose bodies   *)
(* overlap; it is found again at every split.  In one iteration every worker *)
(* computes forces with its copies of neighbouring bodies, reports forces on *)
(* master bodies to the master, moves its own bodies and exchanges states    *)
(* with its neighbours (receives are posted first; a send completes only     *)
(* when its receive has been posted).  Versions of states and forces are     *)
(* iteration numbers.  Always = TRUE is the protocol of the original tree.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxIter, Always
VARIABLES it, pc, near, copy, chF, gotF, posted, arrived, sent, stale
vars == <<it, pc, near, copy, chF, gotF, posted, arrived, sent, stale>>
Ranks == 0..N
Work == 1..N
Pairs == {p \in SUBSET Ranks : Cardinality(p) = 2}
Nbr(r) == {o \in Ranks \ {r} : {r, o} \in near}
Init == /\ near \in SUBSET Pairs
        /\ it = [r \in Ranks |-> 0] /\ pc = [r \in Ranks |-> "compute"] /\ copy = [p \in Ranks \X Ranks |-> 0]
        /\ chF = [w \in Work |-> <<>>] /\ gotF = {} /\ posted = {} /\ arrived = [p \in Ranks \X Ranks |-> -1] /\ sent = [r \in Ranks |-> {}] /\ stale = FALSE
Go(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Compute(r) == it[r] < MaxIter /\ Go(r, "compute", "force") /\ UNCHANGED <<it, near, copy, chF, gotF, posted, arrived, sent, stale>>
SendF(w) == /\ Go(w, "force", "newton") /\ chF' = (IF Always \/ 0 \in Nbr(w) THEN [chF EXCEPT ![w] = Append(@, it[w])] ELSE chF)
            /\ UNCHANGED <<it, near, copy, gotF, posted, arrived, sent, stale>>
RecvF(w) == /\ pc[0] = "force" /\ w \in Nbr(0) \ gotF /\ chF[w] # <<>>
            /\ stale' = (stale \/ Head(chF[w]) # it[0]) /\ chF' = [chF EXCEPT ![w] = Tail(@)] /\ gotF' = gotF \cup {w}
            /\ UNCHANGED <<it, pc, near, copy, posted, arrived, sent>>
EndF == gotF = Nbr(0) /\ Go(0, "force", "newton") /\ gotF' = {} /\ UNCHANGED <<it, near, copy, chF, posted, arrived, sent, stale>>
Post(r) == Go(r, "newton", "send") /\ posted' = (IF r = 0 THEN posted ELSE posted \cup {<<r, o>> : o \in Nbr(r)}) /\ UNCHANGED <<it, near, copy, chF, gotF, arrived, sent, stale>>
ToSend(r) == Nbr(r) \ ({0} \cup sent[r])
Send(r) == /\ pc[r] = "send" /\ ToSend(r) # {}
           /\ LET k == CHOOSE x \in ToSend(r) : \A y \in ToSend(r) : x <= y IN
              /\ <<k, r>> \in posted /\ arrived[<<k, r>>] = -1
              /\ arrived' = [arrived EXCEPT ![<<k, r>>] = it[r] + 1] /\ sent' = [sent EXCEPT ![r] = @ \cup {k}]
           /\ UNCHANGED <<it, pc, near, copy, chF, gotF, posted, stale>>
EndSend(r) == ToSend(r) = {} /\ Go(r, "send", "wait") /\ sent' = [sent EXCEPT ![r] = {}] /\ UNCHANGED <<it, near, copy, chF, gotF, posted, arrived, stale>>
Wait(r) == /\ (r = 0 \/ \A o \in Nbr(r) : arrived[<<r, o>>] # -1) /\ Go(r, "wait", "check")
           /\ IF r = 0 THEN UNCHANGED <<copy, posted, arrived>>
              ELSE /\ copy' = [p \in Ranks \X Ranks |-> IF p[1] = r /\ p[2] \in Nbr(r) THEN arrived[p] ELSE copy[p]]
                   /\ posted' = {p \in posted : p[1] # r} /\ arrived' = [p \in Ranks \X Ranks |-> IF p[1] = r THEN -1 ELSE arrived[p]]
           /\ UNCHANGED <<it, near, chF, gotF, sent, stale>>
AllCheck == \A r \in Ranks : pc[r] = "check"
NextIter == /\ AllCheck /\ it' = [r \in Ranks |-> it[r] + 1] /\ pc' = [r \in Ranks |-> "compute"] /\ UNCHANGED <<near, copy, chF, gotF, posted, arrived, sent, stale>>
\* merge and split: everybody gets a complete current scene, neighbours are found again
Resplit == /\ AllCheck /\ it' = [r \in Ranks |-> it[r] + 1] /\ pc' = [r \in Ranks |-> "compute"] /\ near' \in SUBSET Pairs
           /\ copy' = [p \in Ranks \X Ranks |-> it[0] + 1] /\ UNCHANGED <<chF, gotF, posted, arrived, sent, stale>>
DoCompute == \E r \in Ranks : Compute(r)
DoSendF == \E w \in Work : SendF(w)
DoRecvF == \E w \in Work : RecvF(w)
DoPost == \E r \in Ranks : Post(r)
DoSend == \E r \in Ranks : Send(r)
DoEndSend == \E r \in Ranks : EndSend(r)
DoWait == \E r \in Ranks : Wait(r)
Done == (\A r \in Ranks : pc[r] = "compute" /\ it[r] = MaxIter) /\ UNCHANGED vars
Next == DoCompute \/ DoSendF \/ DoRecvF \/ EndF \/ DoPost \/ DoSend \/ DoEndSend \/ DoWait \/ NextIter \/ Resplit \/ Done
Spec == Init /\ [][Next]_vars
\* forces are computed with the current states of all neighbours
Fresh == \A r \in Work : pc[r] = "compute" => \A o \in Nbr(r) : copy[<<r, o>>] = it[r]
FreshForces == ~stale
Drained == (\A r \in Ranks : pc[r] = "compute" /\ it[r] = it[0]) => \A w \in Work : chF[w] = <<>>
InStep == \A r, o \in Ranks : it[r] - it[o] \in -1..1
=============================================================================
