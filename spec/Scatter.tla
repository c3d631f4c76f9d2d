------------------------------- MODULE Scatter -------------------------------
(***************************************************************************)
(* Scatter of rays.  c and s are cosine and sine of an angle; sg (1 or -1) *)
(* is the sense in which positive angles count.                            *)
(* Radial: r points from the mirror centre to the place of the last        *)
(* interaction.  The ray d first turns in the plane of d and r, then about *)
(* the line along r.                                                       *)
(***************************************************************************)
EXTENDS Vec, Stats
InPlane(d, r, c, s) == Rodrigues(d, Unit(Cross(d, r)), c, s)
AcrossPlane(d, r, c, s) == Rodrigues(d, Unit(r), c, s)
Sg(g, x) == IF g = 1 THEN x ELSE Opp(x)
Radial(d, r, a, b, g, h) == AcrossPlane(InPlane(d, r, Cos(a), Sg(g, Sin(a))), r, Cos(b), Sg(h, Sin(b)))
(* the plane is well defined *)
HasPlane(d, r) == Gt(Norm(r), E3) /\ Gt(Norm(Cross(d, Unit(r))), E4)
NoPlane(d, r) == Lt(Norm(r), E12) \/ Lt(Norm(Cross(d, Unit(r))), E12)
(* any ray that was turned by a, then across by b, has this component along the old direction if d and r are perpendicular *)
Along(a, b) == Mul(Cos(a), Cos(b))
(* random: octant, around the old direction d, of the direction into which the ray was turned; *)
(* a negative angle turns into the opposite direction                                            *)
Least(d) == IF Le(Abs(d[1]), Abs(d[2])) /\ Le(Abs(d[1]), Abs(d[3])) THEN <<One, Zero, Zero>>
            ELSE IF Le(Abs(d[2]), Abs(d[3])) THEN <<Zero, One, Zero>> ELSE <<Zero, Zero, One>>
Octant(d, o, neg) ==
    LET e1 == Unit(Cross(d, Least(d)))
        e2 == Cross(d, e1)
        x == IF neg THEN Opp(Dot(o, e1)) ELSE Dot(o, e1)
        y == IF neg THEN Opp(Dot(o, e2)) ELSE Dot(o, e2)
    IN (IF Gt(x, Zero) THEN 0 ELSE 4) + (IF Gt(y, Zero) THEN 0 ELSE 2) + (IF Gt(Abs(x), Abs(y)) THEN 0 ELSE 1)
EvenOctants(oct) == \A k \in 0..7 : Plausible(Cardinality({i \in DOMAIN oct : oct[i] = k}), Len(oct), Q(1, 8))
(* cosine and sine of the angle, around the old direction, into which the ray was turned *)
Around(d, o, neg) ==
    LET e1 == Unit(Cross(d, Least(d)))
        e2 == Cross(d, e1)
        x == IF neg THEN Opp(Dot(o, e1)) ELSE Dot(o, e1)
        y == IF neg THEN Opp(Dot(o, e2)) ELSE Dot(o, e2)
        r == Sqrt(Add(Sq(x), Sq(y)))
    IN IF Lt(r, E12) THEN <<One, Zero>> ELSE <<Div(x, r), Div(y, r)>>
RECURSIVE SumOf(_, _, _)
SumOf(v, k, i) == IF i > Len(v) THEN Zero ELSE Add(v[i][k], SumOf(v, k, i + 1))
Resultant2(v) == Add(Sq(SumOf(v, 1, 1)), Sq(SumOf(v, 2, 1)))
Doubled(v) == [i \in DOMAIN v |-> <<Sub(Sq(v[i][1]), Sq(v[i][2])), Mul(I(2), Mul(v[i][1], v[i][2]))>>]
(* n unit vectors of random direction add up to a squared length that exceeds 20 n with probability exp(-20) *)
NoPreferred(v) == Le(Resultant2(v), I(20 * Len(v))) /\ Le(Resultant2(Doubled(v)), I(20 * Len(v)))
RECURSIVE SumProd(_, _, _, _)
SumProd(x, y, k, i) == IF i + k > Len(x) \/ i > Len(y) THEN Zero ELSE Add(Mul(x[i + k], y[i]), SumProd(x, y, k, i + 1))
(* two sequences of standard normal draws have nothing to do with each other *)
Independent(x, y, k) == Le(Sq(SumProd(x, y, k, 1)), I(40 * Len(x) + 100))
=============================================================================
