------------------------------ MODULE TSaveLoad ------------------------------
(* Recorded sessions of saving and loading, against SaveLoad.tla.  A state of *)
(* the simulation is observed as one digest per section (bodies, contacts,    *)
(* engines, materials, cell, clock ...) of everything readable from Python.   *)
(*   save   changes nothing                                                   *)
(*   load   gives back what was saved under that name, whatever was done in   *)
(*          between, in whichever format, also in another process             *)
(*   do     any other operation is a function of the saved state: doing the   *)
(*          same from the same state gives the same result                    *)
EXTENDS TraceLib
VARIABLES l, cur, slots, file, succ
vars == <<l, cur, slots, file, succ>>
Without(r, S) == [k \in DOMAIN r \ S |-> r[k]]
\* collision detection starts anew after loading (its boxes are not part of the physical state);
\* energies are sums whose order is not specified
Phys(d) == Without(d, {"bounds", "collider", "energy"})
Eq(what, got, exp) == \A k \in DOMAIN exp : Holds(what \o ": " \o k, got[k] = exp[k], "differ")
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ cur = <<>> /\ slots = <<>> /\ file = "" /\ succ = <<>>
Loaded(e, key) ==
  IF key \in DOMAIN slots
  THEN /\ TRUE = (Holds("loading succeeds", e.ok, key) /\ Eq("after loading", e.d, slots[key]))
       /\ cur' = slots[key] /\ file' = (IF "other" \in DOMAIN e THEN file ELSE key)
       /\ UNCHANGED <<slots, succ>>
  ELSE /\ TRUE = (Holds("nothing of that name was saved", ~e.ok, key) /\ Eq("after failed loading", e.d, cur))
       /\ UNCHANGED <<cur, file, slots, succ>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "new" -> cur' = e.d /\ slots' = <<>> /\ file' = "" /\ succ' = <<>>
       [] e.op = "save" -> /\ TRUE = (Holds("saving succeeds", e.ok, e.key) /\ Eq("after saving", e.d, cur))
                           /\ slots' = Put(slots, e.key, cur) /\ file' = e.key /\ UNCHANGED <<cur, succ>>
       [] e.op = "load" -> Loaded(e, e.key)
       [] e.op = "back" -> cur' = e.d /\ UNCHANGED <<slots, file, succ>>
       [] e.op = "reload" -> Loaded(e, file)
       [] e.op = "tofile" -> /\ TRUE = (Holds("exporting succeeds iff saved", e.ok = (e.key \in DOMAIN slots), e.key) /\ Eq("after exporting", e.d, cur))
                             /\ slots' = (IF e.ok THEN Put(slots, e.to, slots[e.key]) ELSE slots) /\ UNCHANGED <<cur, file, succ>>
       [] e.op = "do" -> LET k == <<Phys(cur), e.what>> IN
                         /\ TRUE = (k \in DOMAIN succ => Eq("same operation from the same state, " \o e.what, Phys(e.d), succ[k]))
                         /\ succ' = (IF k \in DOMAIN succ THEN succ ELSE Put(succ, k, Phys(e.d)))
                         /\ cur' = e.d /\ UNCHANGED <<slots, file>>
Spec == Init /\ [][Next]_vars
=============================================================================
