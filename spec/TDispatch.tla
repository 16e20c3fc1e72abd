------------------------------ MODULE TDispatch ------------------------------
(* Recorded answers of the dispatchers against Dispatch.tla.  P is the class  *)
(* tree as Python sees it.  Functor names end with the class they create.     *)
EXTENDS Dispatch, TraceLib
VARIABLES l, s
Ans(e) == IF s.kind = "bound" THEN Resolve1(s.P, s.fs, e.a) ELSE Resolve2(s.P, s.fs, e.a, e.b, s.kind # "law")
IsA(c, d) == \E i \in DOMAIN Line(s.P, c) : Line(s.P, c)[i] = d
Fun(f) == s.fs[CHOOSE k \in DOMAIN s.fs : s.fs[k].f = f /\ \A j \in DOMAIN s.fs : s.fs[j].f = f => j <= k]
\* a contact made between objects of classes e.a and e.b (as listed in the contact) by the functor for them
Made(e) == LET f == Ans(e) IN
           /\ Holds("functor used", e.made = (IF f \in {"none", "ambiguous"} THEN "none" ELSE Fun(f).makes), <<e, f>>)
           /\ Holds("order of the two bodies", f \in {"none", "ambiguous"} \/ ~e.order \/ (IsA(e.a, Fun(f).a) /\ IsA(e.b, Fun(f).b)), <<e, f>>)
Init == l = 1 /\ s = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.op = "new" -> s' = [kind |-> e.kind, P |-> e.P, fs |-> e.fs]
             [] e.op = "set" -> s' = [s EXCEPT !.fs = e.fs]
             [] e.op = "load" -> s' = s
             [] e.op = "get" -> TRUE = Same("functor for " \o e.a \o " " \o e.b, e.r, Ans(e)) /\ s' = s
             [] e.op = "made" -> TRUE = Made(e) /\ s' = s
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
