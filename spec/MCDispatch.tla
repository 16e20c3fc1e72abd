----------------------------- MODULE MCDispatch -----------------------------
(* The answers are remembered.  Model checked: whatever was asked before, the *)
(* answer is the same.  Orig = TRUE is what the code did before: remembered   *)
(* answers counted as declarations for other classes, and an ambiguity was    *)
(* forgotten after it had been reported once.                                 *)
EXTENDS Dispatch, TLC
CONSTANTS Orig, MaxAsk
Par == [E |-> "", F |-> "E", C |-> "F", V |-> "F"]
Cl == DOMAIN Par
VARIABLES fs, mem, last, n
vars == <<fs, mem, last, n>>
None == [q \in {} |-> ""]
Init == /\ \E p \in Cl \X Cl, q \in Cl \X Cl : fs = <<[a |-> p[1], b |-> p[2], f |-> "f"], [a |-> q[1], b |-> q[2], f |-> "g"]>>
        /\ mem = None /\ last = <<>> /\ n = 0
At(a, b) == IF Orig /\ <<a, b>> \in DOMAIN mem THEN mem[<<a, b>>] ELSE Decl(fs, a, b, TRUE)
Find(a, b) ==
  LET La == Line(Par, a)  Lb == Line(Par, b)
      C == {<<i, j>> \in (1..Len(La)) \X (1..Len(Lb)) : At(La[i], Lb[j]) # "none"}
      near == {c \in C : \A d \in C : c[1] + c[2] <= d[1] + d[2]}
      first == CHOOSE c \in near : \A d \in near : c[1] <= d[1]
      F == {At(La[c[1]], Lb[c[2]]) : c \in near}
  IN IF C = {} THEN [r |-> "none", keep |-> "none"] ELSE IF Cardinality(F) = 1 THEN [r |-> At(La[first[1]], Lb[first[2]]), keep |-> At(La[first[1]], Lb[first[2]])]
     ELSE [r |-> "ambiguous", keep |-> IF Orig THEN At(La[first[1]], Lb[first[2]]) ELSE "none"]
Ask(a, b) ==
  LET k == IF <<a, b>> \in DOMAIN mem THEN [r |-> mem[<<a, b>>], keep |-> "none"] ELSE Find(a, b) IN
  /\ n < MaxAsk /\ n' = n + 1 /\ fs' = fs
  /\ last' = <<a, b, k.r>>
  /\ mem' = IF k.keep = "none" THEN mem ELSE [q \in DOMAIN mem \cup {<<a, b>>} |-> IF q = <<a, b>> THEN k.keep ELSE mem[q]]
Next == \E a, b \in Cl : Ask(a, b)
Spec == Init /\ [][Next]_vars
Right == last # <<>> => last[3] = Resolve2(Par, fs, last[1], last[2], TRUE)
\* the answer does not depend on the order of the two objects
Symmetric == \A a, b \in Cl : Resolve2(Par, fs, a, b, TRUE) = Resolve2(Par, fs, b, a, TRUE)
=============================================================================
