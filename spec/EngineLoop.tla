----------------------------- MODULE EngineLoop -----------------------------
(* The step: prologue, engines in order, epilogue; run at once or one piece  *)
(* at a time (sub-stepping).  Engines "a" and "b" only report that they ran; *)
(* "s" also does what was armed: replace the engines, kill or revive one.    *)
(* A step is one unit of time for dt = 1; dt may be changed between steps.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxLevel, MaxIter, Export
VARIABLES eng, nxt,   \* engines now; replacement waiting for the next step (<<>> = none)
          dead, sub,  \* sub = -1: between steps; k: the next piece is engine k+1 (or the epilogue)
          split,      \* sub-stepping on
          iter, time, dt, arm,
          ran         \* calls made by the last operation
vars == <<eng, nxt, dead, sub, split, iter, time, dt, arm, ran>>
S == [eng |-> eng, nxt |-> nxt, dead |-> dead, sub |-> sub, split |-> split, iter |-> iter, time |-> time, dt |-> dt, arm |-> arm]
Lists == {<<"a", "b">>, <<"b", "s", "a">>, <<"s", "b">>}
Arms == {<<"no">>, <<"kill", "a">>, <<"kill", "b">>, <<"live", "a">>, <<"set", <<"a", "b">>>>, <<"set", <<"b", "s", "a">>>>}
Obs == [eng |-> IF nxt = <<>> THEN eng ELSE nxt, sub |-> sub, split |-> split, iter |-> iter, time |-> time, ran |-> ran,
        dead |-> SelectSeq(<<"a", "b", "s">>, LAMBDA x : x \in dead)]
Emit(o) == IF Export THEN PrintT("@T " \o ToJson([s |-> S, o |-> o, t |-> S', obs |-> Obs'])) ELSE TRUE
Init == /\ eng = <<"a", "b">> /\ nxt = <<>> /\ dead = {} /\ sub = -1 /\ split = FALSE /\ iter = 0 /\ time = 0 /\ dt = 1 /\ arm = <<"no">> /\ ran = <<>>
        /\ (IF Export THEN PrintT("@I " \o ToJson([s |-> S, obs |-> Obs])) ELSE TRUE)

\* running engines k..n of q in state d = [dead, nxt, arm, ran]
One(x, d) == IF x \in d.dead THEN d
             ELSE LET e == [d EXCEPT !.ran = Append(@, x)] IN
                  IF x # "s" THEN e
                  ELSE CASE e.arm[1] = "no" -> e
                         [] e.arm[1] = "kill" -> [e EXCEPT !.dead = @ \cup {d.arm[2]}, !.arm = <<"no">>]
                         [] e.arm[1] = "live" -> [e EXCEPT !.dead = @ \ {d.arm[2]}, !.arm = <<"no">>]
                         [] e.arm[1] = "set"  -> [e EXCEPT !.nxt = d.arm[2], !.arm = <<"no">>]
RECURSIVE All(_, _, _)
All(q, k, d) == IF k > Len(q) THEN d ELSE All(q, k + 1, One(q[k], d))

Step == /\ iter < MaxIter
        /\ LET take == nxt # <<>> /\ (sub < 0 \/ (sub = 0 /\ ~split))     \* a replacement takes effect before any engine of the step ran
               q == IF take THEN nxt ELSE eng
               s0 == IF take THEN -1 ELSE sub
               d0 == [dead |-> dead, nxt |-> IF take THEN <<>> ELSE nxt, arm |-> arm, ran |-> <<>>]
               done == [sub |-> -1, it |-> 1]
               r == IF ~split THEN [d |-> All(q, IF s0 < 0 THEN 1 ELSE s0 + 1, d0), p |-> done]       \* all that is left of the step
                    ELSE IF s0 = -1 THEN [d |-> d0, p |-> [sub |-> 0, it |-> 0]]
                    ELSE IF s0 < Len(q) THEN [d |-> One(q[s0 + 1], d0), p |-> [sub |-> s0 + 1, it |-> 0]]
                    ELSE [d |-> d0, p |-> done]
           IN /\ eng' = q /\ nxt' = r.d.nxt /\ dead' = r.d.dead /\ arm' = r.d.arm /\ ran' = r.d.ran
              /\ sub' = r.p.sub /\ iter' = iter + r.p.it /\ time' = time + (IF r.p.it = 1 THEN dt ELSE 0)
        /\ UNCHANGED <<split, dt>> /\ Emit([op |-> "step"])
Split(b) == b # split /\ split' = b /\ ran' = <<>> /\ UNCHANGED <<eng, nxt, dead, sub, iter, time, dt, arm>> /\ Emit([op |-> "split", v |-> b])
Arm(a) == a # arm /\ arm' = a /\ ran' = <<>> /\ UNCHANGED <<eng, nxt, dead, sub, split, iter, time, dt>> /\ Emit([op |-> "arm", v |-> a])
SetEng(q) == /\ IF sub < 0 THEN eng' = q /\ nxt' = <<>> ELSE nxt' = q /\ UNCHANGED eng
             /\ ran' = <<>> /\ UNCHANGED <<dead, sub, split, iter, time, dt, arm>> /\ Emit([op |-> "engines", v |-> q])
Kill(x) == dead' = (IF x \in dead THEN dead \ {x} ELSE dead \cup {x}) /\ ran' = <<>> /\ UNCHANGED <<eng, nxt, sub, split, iter, time, dt, arm>> /\ Emit([op |-> "dead", v |-> x, d |-> x \notin dead])
Dt(v) == v # dt /\ sub = -1 /\ dt' = v /\ ran' = <<>> /\ UNCHANGED <<eng, nxt, dead, sub, split, iter, time, arm>> /\ Emit([op |-> "dt", v |-> v])
ResetTime == sub = -1 /\ iter > 0 /\ iter' = 0 /\ time' = 0 /\ ran' = <<>> /\ UNCHANGED <<eng, nxt, dead, sub, split, dt, arm>> /\ Emit([op |-> "resetTime"])
\* nothing is lost or done twice when the state is saved and loaded in the middle of a step
SaveLoad == ran' = <<>> /\ UNCHANGED <<eng, nxt, dead, sub, split, iter, time, dt, arm>> /\ Emit([op |-> "saveload"])
DoSplit == \E b \in BOOLEAN : Split(b)
DoArm == \E a \in Arms : Arm(a)
DoSetEng == \E q \in Lists : SetEng(q)
DoKill == \E x \in {"a", "s"} : Kill(x)
DoDt == \E v \in {1, 3} : Dt(v)
Next == Step \/ DoSplit \/ DoArm \/ DoSetEng \/ DoKill \/ DoDt \/ ResetTime \/ SaveLoad
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxLevel
\* an engine never runs twice in one operation, a dead one that was not revived in the step never runs, and order is kept
Once == \A i, j \in 1..Len(ran) : i # j => ran[i] # ran[j]
Ordered == \A i, j \in 1..Len(ran) : i < j => \E k, m \in 1..Len(eng) : k < m /\ eng[k] = ran[i] /\ eng[m] = ran[j]
InStep == sub \in -1..Len(eng)
\* engines change only at the beginning of a step or between steps
Stable == [][(eng' # eng) => (sub < 0 \/ (sub = 0 /\ ~split))]_vars
=============================================================================
