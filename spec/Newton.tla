------------------------------- MODULE Newton -------------------------------
(* Motion of bodies: one step of the leap-frog integrator.                   *)
(* All quantities are integers: lengths in units of 2^-13, velocities (also  *)
(* angular) in units of 2^-10; dt = 2^-k.  Masses and inertias are powers of *)
(* two and damping a multiple of 1/4, so every product is exact.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VS == 1024
PS == 8192
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Ax == 1..3
V0 == <<0, 0, 0>>
Add(a, b) == [i \in Ax |-> a[i] + b[i]]
Sub(a, b) == [i \in Ax |-> a[i] - b[i]]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
RECURSIVE SumV(_, _)
SumV(f, n) == IF n = 0 THEN V0 ELSE Add(SumV(f, n - 1), f[n])
Near(a, b, tol) == \A i \in Ax : Abs(a[i] - b[i]) <= tol

\* change of one velocity component (units 2^-10) in a step:  force f, "mass" m (for rotation: inertia), field g,
\* density scaling s/4, damping d/4, step 2^-k.  The acceleration is f/m + g, scaled; damping reduces it when it
\* speeds the body up (the velocity in the middle of the step has its sign) and increases it when it slows it down.
Accel(f, m, g, s) == ((f + g * m) * 64 * s) \div (m * 4)              \* units 1/64; exact by choice of m, s
MidV(v, a, k) == v * 2^(k + 1) + a * 16                                \* 2^(k+1) * (v + dt a / 2)
Damped(a, v, d, k) == a * (4 - d * Sgn(a) * Sgn(MidV(v, a, k)))        \* units 1/256
DV(f, m, g, s, v, d, k) == (Damped(Accel(f, m, g, s), v, d, k) * 4) \div 2^k
DX(v, k) == (v * 8) \div 2^k

\* one body.  b: [m, I, fixT (blocked translations, set of axes), fixR, damp (damping applies), moves (selected by the mask)]
\* p: [g, d, k, dens (density scaling in use)]
AllFixed(b) == b.fixT = Ax /\ b.fixR = Ax
NewVel(b, p, s, f) == IF AllFixed(b) THEN s.vel ELSE
    [i \in Ax |-> IF i \in b.fixT THEN s.vel[i]
                  ELSE s.vel[i] + DV(f[i], b.m, p.g[i], IF p.dens THEN b.ds ELSE 4, s.vel[i], IF b.damp THEN p.d ELSE 0, p.k)]
NewW(b, p, s, t) == IF AllFixed(b) THEN s.w ELSE
    [i \in Ax |-> IF i \in b.fixR THEN s.w[i]
                  ELSE s.w[i] + DV(t[i], b.I[i], 0, IF p.dens THEN b.ds ELSE 4, s.w[i], IF b.damp THEN p.d ELSE 0, p.k)]
NewPos(b, p, s, v, move) == [i \in Ax |-> s.pos[i] + move[i] * PS + (IF b.moves THEN DX(v[i], p.k) ELSE 0)]
\* rotation vector of the step, units 2^-20
RotVec(b, p, w, rot) == [i \in Ax |-> (IF b.moves THEN w[i] * (1024 \div 2^p.k) + rot[i] * 1048576 ELSE 0)]
\* linear/angular "damping of torque" used with the general rotation integrator (units 1/4)
DampTorque(t, w, d) == [i \in Ax |-> t[i] * (4 - d * Sgn(t[i]) * Sgn(w[i]))]
=============================================================================
