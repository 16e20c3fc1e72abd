------------------------------- MODULE Region -------------------------------
(* Regions of space and what is inside them with a margin pad to spare, in    *)
(* integers.  On a surface itself either answer will do: values are "in",    *)
(* "out" and "edge".                                                         *)
EXTENDS Vec3
Sgn(a) == IF a > 0 THEN "in" ELSE IF a < 0 THEN "out" ELSE "edge"
Both(a, b) == IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "edge" \/ b = "edge" THEN "edge" ELSE "in"
Not(a) == CASE a = "in" -> "out" [] a = "out" -> "in" [] OTHER -> "edge"
Either(a, b) == Not(Both(Not(a), Not(b)))
Sq(v) == Dot(v, v)
\* a >= b * sqrt(q)
AtLeast(a, b, q) == LET x == Sgn(a * a - b * b * q) IN
  IF a >= 0 /\ b <= 0 THEN (IF a = 0 /\ (b = 0 \/ q = 0) THEN "edge" ELSE "in") ELSE IF a < 0 /\ b >= 0 THEN "out" ELSE IF a < 0 THEN Not(x) ELSE x
All(S) == IF "out" \in S THEN "out" ELSE IF "edge" \in S THEN "edge" ELSE "in"
Some(S) == IF "in" \in S THEN "in" ELSE IF "edge" \in S THEN "edge" ELSE "out"
InSphere(r, p, pad) == IF r.r - pad < 0 THEN "out" ELSE Sgn((r.r - pad) * (r.r - pad) - Sq(Sub(p, r.c)))
InBox(r, p, pad) == All({Sgn(p[i] - r.lo[i] - pad) : i \in 1..3} \cup {Sgn(r.hi[i] - pad - p[i]) : i \in 1..3})
\* distance from a plane with outer normal n (any length)
Behind(p, q, n, pad) == AtLeast(-Dot(Sub(p, q), n), pad, Sq(n))
Faces(r) == LET x == Sub(r.a, r.o)  y == Sub(r.b, r.o)  z == Sub(r.c, r.o)
                t == IF Dot(Cross(x, y), z) > 0 THEN 1 ELSE -1 IN
  {<<r.o, Mul(Cross(y, z), -t)>>, <<r.a, Mul(Cross(y, z), t)>>, <<r.o, Mul(Cross(z, x), -t)>>, <<r.b, Mul(Cross(z, x), t)>>, <<r.o, Mul(Cross(x, y), -t)>>, <<r.c, Mul(Cross(x, y), t)>>}
InSkew(r, p, pad) == All({Behind(p, f[1], f[2], pad) : f \in Faces(r)})
Along(r, p, pad) == LET d == Sub(r.c2, r.c1) IN Both(AtLeast(Dot(Sub(p, r.c1), d), pad, Sq(d)), AtLeast(-Dot(Sub(p, r.c2), d), pad, Sq(d)))
InCyl(r, p, pad) == LET d == Sub(r.c2, r.c1) IN
  Both(Along(r, p, pad), IF r.r - pad < 0 THEN "out" ELSE Sgn((r.r - pad) * (r.r - pad) * Sq(d) - Sq(Cross(Sub(p, r.c1), Sub(p, r.c2)))))
\* hyperboloid, square of its radius at p times |d|^4
InHyp(r, p) == LET d == Sub(r.c2, r.c1)  q == Sq(d)  u == 2 * Dot(Sub(p, r.c1), d) - q IN
  Both(Along(r, p, 0), Sgn(r.w * r.w * q * q + u * u * (r.r * r.r - r.w * r.w) - Sq(Cross(Sub(p, r.c1), Sub(p, r.c2))) * q))
InEll(r, p, pad) == LET s == [i \in 1..3 |-> (r.s[i] - pad) * (r.s[i] - pad)]  d == Sub(p, r.c) IN
  Sgn(s[1] * s[2] * s[3] - d[1] * d[1] * s[2] * s[3] - d[2] * d[2] * s[1] * s[3] - d[3] * d[3] * s[1] * s[2])
\* everything at least pad away from the notch between two planes, edge and normal along axes
OutsideNotch(r, p, pad) ==
  LET d == Sub(p, r.c)  up == Dot(r.n, d) - r.h  dn == -Dot(r.n, d) - r.h  ip == -Dot(Cross(r.e, r.n), d)
      far(k) == Sgn(ip * ip + k * k - pad * pad)
  IN IF pad <= 0 THEN Some({Sgn(ip - pad), Sgn(up - pad), Sgn(dn - pad)})
     ELSE Some({Sgn(ip - pad), Sgn(up - pad), Sgn(dn - pad)} \cup (IF ip >= 0 /\ up > 0 THEN {far(up)} ELSE {}) \cup (IF ip >= 0 /\ dn > 0 THEN {far(dn)} ELSE {}))
RECURSIVE In(_, _, _)
In(r, p, pad) ==
  CASE r.k = "sphere" -> InSphere(r, p, pad)
    [] r.k = "box" -> InBox(r, p, pad)
    [] r.k = "skew" -> InSkew(r, p, pad)
    [] r.k = "cyl" -> InCyl(r, p, pad)
    [] r.k = "hyp" -> InHyp(r, p)
    [] r.k = "ell" -> InEll(r, p, pad)
    [] r.k = "notch" -> OutsideNotch(r, p, pad)
    [] r.k = "half" -> AtLeast(Dot(Sub(p, r.c), r.d), pad, Sq(r.d))
    [] r.k = "or" -> Either(In(r.A, p, pad), In(r.B, p, pad))
    [] r.k = "and" -> Both(In(r.A, p, pad), In(r.B, p, pad))
    [] r.k = "minus" -> Both(In(r.A, p, pad), Not(In(r.B, p, -pad)))
    [] r.k = "xor" -> Either(Both(In(r.A, p, pad), Not(In(r.B, p, -pad))), Both(In(r.B, p, pad), Not(In(r.A, p, -pad))))
\* the smallest box around a region whose box has integer corners (<<>>: not known)
Corner(a, b, low) == [i \in 1..3 |-> IF (a[i] < b[i]) = low THEN a[i] ELSE b[i]]
Vertices(r) == LET x == Sub(r.a, r.o)  y == Sub(r.b, r.o)  z == Sub(r.c, r.o) IN {Add(r.o, Add(Mul(x, i), Add(Mul(y, j), Mul(z, k)))) : i \in 0..1, j \in 0..1, k \in 0..1}
RECURSIVE Tight(_)
Tight(r) ==
  CASE r.k = "sphere" -> <<Sub(r.c, <<r.r, r.r, r.r>>), Add(r.c, <<r.r, r.r, r.r>>)>>
    [] r.k = "box" -> <<r.lo, r.hi>>
    [] r.k = "ell" -> <<Sub(r.c, r.s), Add(r.c, r.s)>>
    [] r.k = "skew" -> LET V8 == Vertices(r) IN <<[i \in 1..3 |-> CHOOSE a \in {v[i] : v \in V8} : \A v \in V8 : a <= v[i]], [i \in 1..3 |-> CHOOSE a \in {v[i] : v \in V8} : \A v \in V8 : a >= v[i]]>>
    [] r.k \in {"or", "xor"} -> LET a == Tight(r.A)  b == Tight(r.B) IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<Corner(a[1], b[1], TRUE), Corner(a[2], b[2], FALSE)>>
    [] r.k = "and" -> LET a == Tight(r.A)  b == Tight(r.B) IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<Corner(a[1], b[1], FALSE), Corner(a[2], b[2], TRUE)>>
    [] OTHER -> <<>>
=============================================================================
