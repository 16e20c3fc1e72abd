------------------------------- MODULE Boxes --------------------------------
(* Which pairs of bodies have to be considered by collision detection.       *)
(* A body is [k (kind), lo, hi (box), bnd (has a box), mask, clump (id of    *)
(* the clump it belongs to, 0 if none), isc (is a clump), sub].              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bits == {1, 2, 4, 8}
Has(m, b) == (m \div b) % 2 = 1
Common(m1, m2) == \E b \in Bits : Has(m1, b) /\ Has(m2, b)

\* may two bodies touch at all: avoid = avoidSelfInteractionMask, here = number of this subdomain
Eligible(a, b, avoid, here) ==
    /\ a.bnd /\ b.bnd /\ ~a.isc /\ ~b.isc
    /\ (a.sub = here \/ b.sub = here)
    /\ ~(a.clump # 0 /\ a.clump = b.clump)
    /\ Common(a.mask, b.mask)
    /\ ~(a.mask = b.mask /\ Common(a.mask, avoid))
\* boxes that overlap by more than s (s < 0: that are closer than -s)
Overlap(a, b, s) == /\ a.lo[1] + s < b.hi[1] /\ b.lo[1] + s < a.hi[1]
                    /\ a.lo[2] + s < b.hi[2] /\ b.lo[2] + s < a.hi[2]
                    /\ a.lo[3] + s < b.hi[3] /\ b.lo[3] + s < a.hi[3]
Touch(a, b, s) ==   /\ a.lo[1] - s <= b.hi[1] /\ b.lo[1] - s <= a.hi[1]
                    /\ a.lo[2] - s <= b.hi[2] /\ b.lo[2] - s <= a.hi[2]
                    /\ a.lo[3] - s <= b.hi[3] /\ b.lo[3] - s <= a.hi[3]
\* pair <<i, j>> with i < j must be present / may be present (slack: boxes may be larger than the shape by this much)
MustSee(B, i, j, avoid, here) == Overlap(B[i], B[j], 0) /\ Eligible(B[i], B[j], avoid, here)
MaySee(B, i, j, avoid, here, slack) == Touch(B[i], B[j], slack) /\ Eligible(B[i], B[j], avoid, here)
=============================================================================
