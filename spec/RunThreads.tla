----------------------------- MODULE RunThreads -----------------------------
(* The threads behind O.run / O.pause: the user's thread starts workers and  *)
(* clears the flag; workers are serialised by a mutex.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS W, MaxIter, MaxOps
VARIABLES looping, term, iter, stopAt, owner, pc, ops, paused
vars == <<looping, term, iter, stopAt, owner, pc, ops, paused>>
Init == looping = FALSE /\ term = FALSE /\ iter = 0 /\ stopAt = 0 /\ owner = 0 /\ pc = [w \in W |-> "new"] /\ ops = 0 /\ paused = FALSE
User == ops < MaxOps /\ ops' = ops + 1
Run(n) == /\ User /\ stopAt' = (IF n > 0 THEN iter + n ELSE stopAt)
          /\ IF looping THEN UNCHANGED <<looping, pc>>
             ELSE looping' = TRUE /\ \E w \in W : pc[w] = "new" /\ (\A v \in W : v < w => pc[v] # "new") /\ pc' = [pc EXCEPT ![w] = "lock"]
          /\ paused' = FALSE /\ UNCHANGED <<term, iter, owner>>
Pause == User /\ looping' = FALSE /\ paused' = TRUE /\ UNCHANGED <<term, iter, stopAt, owner, pc>>
Lock(w) == pc[w] = "lock" /\ owner = 0 /\ owner' = w /\ pc' = [pc EXCEPT ![w] = "test"] /\ UNCHANGED <<looping, term, iter, stopAt, ops, paused>>
Test(w) == pc[w] = "test" /\ (IF looping THEN pc' = [pc EXCEPT ![w] = "call"] /\ owner' = owner ELSE pc' = [pc EXCEPT ![w] = "end"] /\ owner' = 0)
           /\ UNCHANGED <<looping, term, iter, stopAt, ops, paused>>
Call(w) == pc[w] = "call" /\ iter < MaxIter /\ term' = FALSE /\ pc' = [pc EXCEPT ![w] = "act"] /\ UNCHANGED <<looping, iter, stopAt, owner, ops, paused>>
Act(w) == pc[w] = "act" /\ iter' = iter + 1 /\ term' = (iter + 1 = stopAt) /\ pc' = [pc EXCEPT ![w] = "chk"] /\ UNCHANGED <<looping, stopAt, owner, ops, paused>>
Chk(w) == pc[w] = "chk" /\ (IF term THEN looping' = FALSE /\ pc' = [pc EXCEPT ![w] = "end"] /\ owner' = 0
                           ELSE pc' = [pc EXCEPT ![w] = "test"] /\ UNCHANGED <<looping, owner>>)
          /\ UNCHANGED <<term, iter, stopAt, ops, paused>>
DoRun == \E n \in 0..2 : Run(n)
DoLock == \E w \in W : Lock(w)
DoTest == \E w \in W : Test(w)
DoCall == \E w \in W : Call(w)
DoAct == \E w \in W : Act(w)
DoChk == \E w \in W : Chk(w)
Next == DoRun \/ Pause \/ DoLock \/ DoTest \/ DoCall \/ DoAct \/ DoChk
Spec == Init /\ [][Next]_vars /\ WF_vars(DoLock) /\ WF_vars(DoTest) /\ WF_vars(DoCall) /\ WF_vars(DoAct) /\ WF_vars(DoChk)
OneAtATime == Cardinality({w \in W : pc[w] \in {"test", "call", "act", "chk"}}) <= 1
\* a worker that saw its stop flag ends before it takes another step
NoOverrun == \A w \in W : pc[w] \in {"test", "call"} => ~(term /\ iter = stopAt /\ ops = 1)
\* a single run(n) that is never paused ends exactly at its target
Exact == (ops = 1 /\ ~paused /\ stopAt > 0) => iter <= stopAt
\* after the last request everything comes to rest if it was a pause
Quiet == (\A w \in W : pc[w] \in {"new", "end"})
PauseStops == [](ops = MaxOps /\ paused => <>(Quiet \/ iter >= MaxIter))
=============================================================================
