------------------------------ MODULE Dispatch ------------------------------
(* Choice of the functor for objects of given classes.  Classes form a tree  *)
(* (Parent; the top class "" takes no part); a functor is declared for one   *)
(* class or a pair of classes.  The nearest declared pair wins, distances in *)
(* the two arguments being added; two different functors at the same nearest *)
(* distance are an error; none at all gives none.                            *)
EXTENDS Integers, Sequences, FiniteSets
\* up the tree from c, without the top
RECURSIVE Line(_, _)
Line(P, c) == IF c = "" THEN <<>> ELSE <<c>> \o Line(P, P[c])
\* declared pairs (two dimensions, symmetric or not): the last functor of the list declared for a pair is the one
Decl(fs, a, b, sym) ==
  LET K == {k \in 1..Len(fs) : (fs[k].a = a /\ fs[k].b = b) \/ (sym /\ fs[k].a = b /\ fs[k].b = a)}
  IN IF K = {} THEN "none" ELSE fs[CHOOSE k \in K : \A j \in K : j <= k].f
Resolve2(P, fs, a, b, sym) ==
  LET La == Line(P, a)  Lb == Line(P, b)
      C == {<<i, j>> \in (1..Len(La)) \X (1..Len(Lb)) : Decl(fs, La[i], Lb[j], sym) # "none"}
      near == {c \in C : \A d \in C : c[1] + c[2] <= d[1] + d[2]}
      F == {Decl(fs, La[c[1]], Lb[c[2]], sym) : c \in near}
  IN IF C = {} THEN "none" ELSE IF Cardinality(F) = 1 THEN CHOOSE f \in F : TRUE ELSE "ambiguous"
Resolve1(P, fs, a) ==
  LET La == Line(P, a)
      D(c) == LET K == {k \in 1..Len(fs) : fs[k].a = c} IN IF K = {} THEN "none" ELSE fs[CHOOSE k \in K : \A j \in K : j <= k].f
      C == {i \in 1..Len(La) : D(La[i]) # "none"}
  IN IF C = {} THEN "none" ELSE D(La[CHOOSE i \in C : \A j \in C : i <= j])
=============================================================================
