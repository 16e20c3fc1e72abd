------------------------------ MODULE Observe -------------------------------
(* What a simulation is said to contain: totals over its bodies and contacts. *)
(* A clump stands for its members; bodies that were erased count for nothing. *)
EXTENDS Vec3, FiniteSets, SequencesExt, FiniteSetsExt
Z3 == <<0, 0, 0>>
SumInt(S) == FoldLeft(LAMBDA a, b : a + b, 0, S)
SumVec(S) == FoldLeft(LAMBDA a, b : Add(a, b), Z3, S)
Outer(a, b) == [i \in 1..3 |-> Mul(b, a[i])]
SumTen(S) == FoldLeft(LAMBDA a, b : [i \in 1..3 |-> Add(a[i], b[i])], <<Z3, Z3, Z3>>, S)
MatVec(M, v) == [i \in 1..3 |-> Dot(M[i], v)]
\* bodies that move on their own
Own(B) == SelectSeq(B, LAMBDA b : ~b.member)
Moving(B) == SelectSeq(B, LAMBDA b : ~b.member /\ b.dyn)
Bits(s) == {s[k] : k \in DOMAIN s}
Masked(b, q) == q = <<>> \/ Bits(b.mask) \cap Bits(q) # {}
Spheres(B, q) == SelectSeq(B, LAMBDA b : b.r > 0 /\ Masked(b, q))
Momentum(B) == LET T == Own(B) IN SumVec([k \in DOMAIN T |-> Mul(T[k].v, T[k].m)])
AngMomentum(B, o) == LET T == Own(B) IN SumVec([k \in DOMAIN T |-> Add(Cross(Sub(T[k].p, o), Mul(T[k].v, T[k].m)), T[k].L)])
\* velocity with respect to the mean field G of periodic space
Fluct(b, p, G) == Sub(b.v, MatVec(G, p))
DynStress(B, G) == LET T == Own(B) IN SumTen([k \in DOMAIN T |-> LET u == Fluct(T[k], T[k].p, G) IN Outer(Mul(u, -T[k].m), u)])
\* contact c acts with f on its second body
Force(c) == Add(c.fn, c.fs)
Branch(c, p1, p2) == Sub(Sub(p1, p2), c.sh)
Stress(C, P) == SumTen([k \in DOMAIN C |-> Outer(Force(C[k]), Branch(C[k], P[C[k].id1], P[C[k].id2]))])
AcrossPlane(C, P, o, n) ==
  SumVec([k \in DOMAIN C |-> LET a == Dot(Sub(P[C[k].id1], o), n)  b == Dot(Sub(P[C[k].id2], o), n) IN
          IF (a > 0 /\ b > 0) \/ (a < 0 /\ b < 0) THEN Z3 ELSE IF a < 0 THEN Force(C[k]) ELSE Mul(Force(C[k]), -1)])
=============================================================================
