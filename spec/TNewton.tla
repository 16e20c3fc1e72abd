------------------------------ MODULE TNewton -------------------------------
(* recorded steps of the real integrator.  Event "new": bodies and their     *)
(* constants; "set": values assigned by the user; "step": the forces present *)
(* in a step and the state afterwards; "obs" vectors are in model units.     *)
EXTENDS Newton, TraceLib
VARIABLES l, par, bod, st
vars == <<l, par, bod, st>>
Ids == DOMAIN bod
ToSet3(q) == {i \in Ax : q[i] = 1}
Conv(c) == [kind |-> c.kind, m |-> c.m, I |-> c.I, fixT |-> ToSet3(c.fixT), fixR |-> ToSet3(c.fixR), damp |-> c.damp, moves |-> c.moves,
            ds |-> c.ds, act |-> c.act, mem |-> c.mem, asph |-> c.asph]
Max3(v) == LET m(a, b) == IF a > b THEN a ELSE b IN m(Abs(v[1]), m(Abs(v[2]), Abs(v[3])))
\* total force and torque on a clump with members at r (relative, units 2^-13; torque result in units 2^-13)
CF(b, e, i) == Add(e.f[i], SumV([j \in 1..Len(b.mem) |-> e.f[b.mem[j]]], Len(b.mem)))
CT(b, e, i) == LET own == [x \in Ax |-> e.t[i][x] * PS]
                   one(j) == Add([x \in Ax |-> e.t[j][x] * PS], Cross(Sub(st[j].pos, st[i].pos), e.f[j]))
               IN Add(own, SumV([j \in 1..Len(b.mem) |-> one(b.mem[j])], Len(b.mem)))
Same3(what, i, got, exp) == Same(what \o " of body " \o ToString(i), got, exp)
Near3(what, i, got, exp, tol) == Holds(what \o " of body " \o ToString(i), Near(got, exp, tol), <<got, exp>>)
RotOk(i, b, s, w, e) == (\A x \in Ax : Abs(w[x]) * (1024 \div 2^par.k) <= 1600000) =>
                        Near3("rotation", i, s.rv, RotVec(b, par, w, e.rot[i]), IF b.kind = "clump" THEN 64 + 512 \div 2^par.k ELSE 64)
Alone(b, i, e, s) == LET v == NewVel(b, par, st[i], e.f[i])  w == NewW(b, par, st[i], e.t[i]) IN
    /\ Same3("velocity", i, s.vel, v)
    /\ Same3("position", i, s.pos, NewPos(b, par, st[i], v, e.mv[i]))
    /\ Same3("angular velocity", i, s.w, w)
    /\ RotOk(i, b, s, w, e)
\* general integrator: angular momentum (units 2^-13) grows by dt times the torque
\* torque in units 1/4, so dt*M in units 2^-13 is M * 2^11 / 2^k
Asph(b, i, e, s) == LET v == NewVel(b, par, st[i], e.f[i]) IN
    /\ Same3("velocity", i, s.vel, v)
    /\ Same3("position", i, s.pos, NewPos(b, par, st[i], v, e.mv[i]))
    /\ IF e.wx[i]    \* angular velocity before the step known exactly enough for the direction of damping
       THEN Near3("angular momentum", i, s.L, Add(st[i].L, [x \in Ax |-> DampTorque(e.t[i], e.w0[i], IF b.damp THEN par.d ELSE 0)[x] * (2048 \div 2^par.k)]), 1)
       ELSE TRUE
    /\ LET q == Max3(s.wl) \div 2^par.k IN (q <= 8192 /\ Max3(s.Ll) <= 1000000) =>
       /\ Near3("angular velocity in the body frame times inertia", i, [x \in Ax |-> s.wl[x] * b.I[x]], [x \in Ax |-> (s.Ll[x] * (IF par.dens THEN b.ds ELSE 4)) \div 4],
                2 * (b.I[1] + b.I[2] + b.I[3]) + (Max3(s.Ll) \div 64) * ((q * q) \div 1048576 + 1))
       /\ Near3("rotation in the body frame", i, s.rl, IF b.moves THEN [x \in Ax |-> s.wl[x] \div 2^par.k] ELSE V0, IF b.moves THEN 40 + (q * q) \div 4096 ELSE 0)
\* clump: rotation is compared within tolerance because members' relative positions are rounded
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
TolT(b, e) == 2 + 2 * SumSeq([j \in 1..Len(b.mem) |-> Abs(e.f[b.mem[j]][1]) + Abs(e.f[b.mem[j]][2]) + Abs(e.f[b.mem[j]][3])])
CW(b, e, i, x) == st[i].w[x] * 8 + CT(b, e, i)[x] \div (b.I[x] * 2^par.k)     \* units 2^-13
ClumpOk(b, i, e, s) == LET v == NewVel(b, par, st[i], CF(b, e, i)) IN
    /\ Same3("velocity", i, s.vel, v)
    /\ Same3("position", i, s.pos, NewPos(b, par, st[i], v, e.mv[i]))
    /\ \A x \in Ax : IF x \in b.fixR THEN Holds("blocked angular velocity", s.w[x] = st[i].w[x], <<i, s.w, st[i].w>>)
                     ELSE Holds("angular velocity of clump", Abs(s.w[x] * 8 - CW(b, e, i, x)) <= 9 + TolT(b, e) \div (b.I[x] * 2^par.k), <<i, x, s.w[x] * 8, CW(b, e, i, x), TolT(b, e)>>)
    /\ RotOk(i, b, s, s.w, e)
Member(b, i, e, all) == LET c == b.mem[1]  s == all[i]  k == all[c]  r == Sub(s.pos, k.pos) IN
    /\ Holds("member moves with its clump", Near([x \in Ax |-> (s.vel[x] - k.vel[x]) * 8192], [x \in Ax |-> Cross(k.w, r)[x]], 12000 + Abs(r[1]) + Abs(r[2]) + Abs(r[3]) + 2 * (Abs(k.w[1]) + Abs(k.w[2]) + Abs(k.w[3]))), <<i, s.vel, k.vel, k.w, r>>)
    /\ Near3("angular velocity of member", i, s.w, k.w, 1)
    /\ Near3("place in the clump", i, s.loc, st[i].loc, 1)
    /\ Near3("rotation of member", i, s.rv, k.rv, 64)
Rest(i, s) == Same3("state of a body of another subdomain", i, <<s.pos, s.vel, s.w>>, <<st[i].pos, st[i].vel, st[i].w>>)

Init == l = 1 /\ par = [k |-> 0] /\ bod = <<>> /\ st = <<>>
New(e) == par' = e.par /\ bod' = [i \in 1..Len(e.bod) |-> Conv(e.bod[i])] /\ st' = e.obs
SetPar(e) == par' = e.par /\ UNCHANGED <<bod, st>>
SetBody(e) == bod' = [bod EXCEPT ![e.i] = Conv(e.c)] /\ st' = e.obs /\ UNCHANGED par
StepEv(e) == /\ \A i \in Ids : LET b == bod[i]  s == e.obs[i] IN
                    IF ~b.act THEN Rest(i, s)
                    ELSE CASE b.kind = "clump" -> ClumpOk(b, i, e, s)
                           [] b.kind = "member" -> Member(b, i, e, e.obs)
                           [] b.kind = "alone" /\ b.asph /\ b.fixR = {} -> Asph(b, i, e, s)
                           [] OTHER -> Alone(b, i, e, s)
             /\ st' = e.obs /\ UNCHANGED <<par, bod>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN CASE e.op = "new" -> New(e) [] e.op = "par" -> SetPar(e) [] e.op = "body" -> SetBody(e) [] e.op = "step" -> StepEv(e)
Spec == Init /\ [][Next]_vars
=============================================================================
