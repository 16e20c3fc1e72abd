-------------------------------- MODULE Vec3 --------------------------------
(* Vectors in fixed point, and how a force at a contact is carried along and  *)
(* changed by the motion of the surfaces.  Normals xN, velocities and spins   *)
(* times time step xV, forces x100, stiffness ks x1000, lengths x100.         *)
EXTENDS Integers, Sequences
N == 20000
V == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Mul(a, k) == [i \in 1..3 |-> a[i] * k]
Div(a, k) == [i \in 1..3 |-> IF a[i] >= 0 THEN (a[i] + k \div 2) \div k ELSE -((-a[i] + k \div 2) \div k)]
RECURSIVE Bis(_, _, _)
Bis(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bis(x, m, hi) ELSE Bis(x, lo, m)
Norm(v) == Bis(Dot(v, v), 0, 40000)
\* relative velocity of the surfaces
RelVel(c) == LET dv == Add(Sub(c.v2, c.v1), c.sv) IN
  IF c.ratch THEN Sub(Add(Div(Mul(dv, 100 * (c.r1 + c.r2)), 100 * (c.r1 + c.r2) - c.un), Div(Mul(Cross(c.w2, c.n), -c.r2), N)), Div(Mul(Cross(c.w1, c.n), c.r1), N))
  ELSE Sub(Add(dv, Div(Cross(c.w2, c.c2), 100)), Div(Cross(c.w1, c.c1), 100))
Tangential(v, n) == LET p == Dot(n, v) \div N IN Sub(v, Div(Mul(n, p), N))
Carried(c, old) == LET orth == Div(Cross(old.n, c.n), N)
                       ang == Dot(old.n, Add(c.w1, c.w2)) \div (2 * N)
                       tw == Div(Mul(old.n, ang), V)
                       f1 == Sub(old.fs, Div(Cross(old.fs, orth), N))
                   IN Sub(f1, Div(Cross(f1, tw), N))
Near(a, b, t) == \A i \in 1..3 : Abs(a[i] - b[i]) <= t
Trial(c, old) == Sub(IF old = <<>> THEN <<0, 0, 0>> ELSE Carried(c, old[1]), Div(Mul(Tangential(RelVel(c), c.n), c.ks), 100000))
=============================================================================
