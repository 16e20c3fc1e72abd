------------------------------ MODULE MCRegion ------------------------------
(* Regions in a small grid: a point that is inside with margin pad has only   *)
(* points of the region within pad of it, whatever the region is made of.    *)
EXTENDS Region, FiniteSets
CONSTANTS G, Pads
VARIABLES region, p, pad
vars == <<region, p, pad>>
Coord == (0..G)
Pt == {<<x, y, z>> : x \in Coord, y \in Coord, z \in {0, 1}}
Prim == {[k |-> "sphere", c |-> <<2, 2, 0>>, r |-> 2], [k |-> "box", lo |-> <<1, 0, -1>>, hi |-> <<4, 3, 1>>], [k |-> "cyl", c1 |-> <<0, 2, 0>>, c2 |-> <<4, 2, 0>>, r |-> 2],
         [k |-> "ell", c |-> <<2, 2, 0>>, s |-> <<3, 2, 4>>], [k |-> "notch", c |-> <<2, 2, 0>>, e |-> <<0, 0, 1>>, n |-> <<0, 1, 0>>, h |-> 1],
         [k |-> "skew", o |-> <<0, 0, -1>>, a |-> <<4, 1, -1>>, b |-> <<1, 4, -1>>, c |-> <<0, 0, 3>>]}
Regions == Prim \cup {[k |-> o, A |-> a, B |-> b] : o \in {"or", "and", "minus", "xor"}, a \in Prim, b \in Prim}
Init == region \in Regions /\ p \in Pt /\ pad \in Pads
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* ellipsoids shrink along their axes only, others by distance
Exact(r) == IF r.k \in {"or", "and", "minus", "xor"} THEN r.A.k # "ell" /\ r.B.k # "ell" ELSE r.k # "ell"
Margin == In(region, p, pad) = "in" /\ Exact(region) => \A q \in Pt : Sq(Sub(p, q)) < pad * pad => In(region, q, 0) # "out"
Nested == pad > 0 /\ In(region, p, pad) = "in" => In(region, p, 0) # "out"
Algebra == region.k \in {"or", "and", "minus", "xor"} => LET a == In(region.A, p, 0)  b == In(region.B, p, 0) IN
  a # "edge" /\ b # "edge" => In(region, p, 0) =
    (LET t == CASE region.k = "or" -> a = "in" \/ b = "in" [] region.k = "and" -> a = "in" /\ b = "in" [] region.k = "minus" -> a = "in" /\ b = "out" [] region.k = "xor" -> a # b IN IF t THEN "in" ELSE "out")
=============================================================================
