------------------------------ MODULE TDecomp -------------------------------
(* Recorded distributed runs.  What the protocol of Decomp.tla provides must *)
(* be seen: after a split every body that a rank may touch is mirrored       *)
(* there, both sides agree on the lists, every copy is current after every   *)
(* step, the master's forces are those of the step; and the result is that   *)
(* of the serial run.  Tol: rounding, in units of 1e-6.                      *)
EXTENDS TraceLib
Tol == 3
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= Tol
Overlap(a, b) == \A i \in 1..3 : a[i] < b[i + 3] /\ b[i] < a[i + 3]
ToS(q) == {q[i] : i \in 1..Len(q)}
\* ranks are 0..n-1, sequences 1..n; bodies are 0-based as well
SplitOK(e) ==
  LET n == Len(e.ranks)
      Bodies == 0..(Len(e.sd) - 1)
      Box(b) == e.box[b + 1]
      Own(r) == {b \in Bodies : e.sd[b + 1] = r}
      Inter(r, o) == ToS(e.ranks[r + 1].inter[o + 1])
      Mirror(r, o) == ToS(e.ranks[r + 1].mirror[o + 1])
      Here(r) == ToS(e.ranks[r + 1].here)
      Bnd(r) == ToS(e.ranks[r + 1].bounded)
  IN /\ \A r \in 0..(n - 1) : Holds("own bodies present and bounded on rank " \o ToString(r), Own(r) \subseteq Here(r) /\ Own(r) \subseteq Bnd(r), e)
     \* every body of o that may touch a body of r is mirrored on worker r
     /\ \A r \in 1..(n - 1) : \A o \in (0..(n - 1)) \ {r} :
          LET need == {b \in Own(o) : \E c \in Own(r) : Overlap(Box(b), Box(c))} IN
          /\ Holds("bodies of " \o ToString(o) \o " needed by " \o ToString(r) \o " are mirrored", need \subseteq Mirror(r, o) /\ need \subseteq Here(r) /\ need \subseteq Bnd(r), <<need, Mirror(r, o), Here(r)>>)
          \* the sender has the same list, and both know that they talk
          /\ Same("lists of " \o ToString(o) \o " and " \o ToString(r), Mirror(r, o), IF o = 0 THEN Inter(0, r) ELSE Inter(o, r))
          /\ Holds("neighbour known", (Mirror(r, o) # {}) => (o \in Inter(r, r)) /\ (r \in Inter(o, o)), <<r, o>>)
          /\ Holds("talking is mutual", o = 0 \/ ((o \in Inter(r, r)) <=> (r \in Inter(o, o))), <<r, o>>)
          /\ Holds("only own bodies are sent", Mirror(r, o) \subseteq Own(o), <<r, o>>)
StepOK(e) ==
  LET n == Len(e.its)
      cur == {p \in UNION {ToS(e.own[r]) : r \in 1..n} : TRUE}
  IN /\ Holds("all ranks at the same iteration", \A r \in 1..n : e.its[r] = e.its[1], e.its)
     /\ \A r \in 1..n : Holds("copies on rank " \o ToString(r - 1) \o " are current", ToS(e.copies[r]) \subseteq cur, ToS(e.copies[r]) \ cur)
     /\ \A k \in 1..Len(e.forces) : Holds("force on master body", Close(e.forces[k][2], e.forces[k][3]), e.forces[k])
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new"    -> TRUE
             [] e.op = "split"  -> TRUE = SplitOK(e)
             [] e.op = "step"   -> TRUE = StepOK(e)
             [] e.op = "mpi"    -> /\ Same("iterations done", e.it, e.want)
                                   /\ \A b \in 1..Len(e.st) : Holds("state of body " \o ToString(b - 1) \o " (parallel, serial)", Close(e.st[b], e.sst[b]), <<e.st[b], e.sst[b]>>)
                                   /\ \A b \in 1..Len(e.f) : Holds("force on master body (parallel, serial)", Close(e.f[b], e.sf[b]), <<e.f[b], e.sf[b]>>)
Spec == Init /\ [][Next]_l
=============================================================================
