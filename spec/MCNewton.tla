------------------------------ MODULE MCNewton ------------------------------
(* one axis, all combinations of small parameters: properties of the step    *)
EXTENDS Newton
CONSTANTS MaxLevel
VARIABLES b, p, s
vars == <<b, p, s>>
Fs == {-8, 0, 3}
Init == /\ b \in [m: {1, 4}, I: {<<1, 2, 4>>}, fixT: {{}, {2}, Ax}, fixR: {{}, {1}, Ax}, damp: BOOLEAN, moves: BOOLEAN, ds: {1, 4}]
        /\ p \in [g: {<<0, -2, 1>>}, d: {0, 2}, k: {1, 3}, dens: {TRUE}]
        /\ s \in [pos: {V0}, vel: {<<0, 64, -96>>, <<-128, 0, 0>>}, w: {V0, <<32, 0, -512>>}]
Do(f, t) == LET v == NewVel(b, p, s, f) IN s' = [pos |-> NewPos(b, p, s, v, V0), vel |-> v, w |-> NewW(b, p, s, t)] /\ UNCHANGED <<b, p>>
Step == \E x \in Fs, y \in Fs : Do(<<x, y, -x>>, <<y, x, 0>>)
Next == Step
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxLevel
Neg(a) == [i \in Ax |-> -a[i]]
\* blocked axes keep their velocity; a fully blocked body keeps everything but moves on with its velocity
Blocked == [][/\ \A i \in b.fixT : s'.vel[i] = s.vel[i]
              /\ \A i \in b.fixR : s'.w[i] = s.w[i]
              /\ AllFixed(b) => s'.vel = s.vel /\ s'.w = s.w]_vars
\* a body left out by the mask does not move
Still == [][~b.moves => s'.pos = s.pos]_vars
\* damping never reverses an acceleration and changes it by at most the fraction d/4 in either direction
DampBound == \A f \in Fs, v \in {-64, -8, 0, 8, 64}, k \in {1, 3}, m \in {1, 4}, d \in {0, 1, 2} :
    LET x == DV(f, m, 0, 4, v, d, k) y == DV(f, m, 0, 4, v, 0, k) IN
    /\ Sgn(x) = Sgn(y) /\ 4 * Abs(x) <= (4 + d) * Abs(y) /\ 4 * Abs(x) >= (4 - d) * Abs(y)
\* no preferred direction
Mirror == \A f \in Fs, v \in {-64, -8, 0, 8, 64}, k \in {1, 3}, m \in {1, 4}, d \in {0, 1, 2} :
    DV(-f, m, 0, 4, -v, d, k) = -DV(f, m, 0, 4, v, d, k)
ASSUME DampBound /\ Mirror
=============================================================================
