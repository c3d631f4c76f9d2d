------------------------------- MODULE SkyMC -------------------------------
(* A telescope is pointed, rolled and its axes are renamed step by step while  *)
(* two stars stay where they are.                                            *)
EXTENDS Sky, TLC
CONSTANTS DecSteps, RollStep
VARIABLES ra, dec, roll, ref, star
vars == << ra, dec, roll, ref, star >>
Refs == << Id4, << <<Zero, One, Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<One, Zero, Zero, Zero>>, <<Zero, Zero, Zero, One>> >>,
           << <<Q(3, 5), Q(-4, 5), Zero, I(7)>>, <<Q(4, 5), Q(3, 5), Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, One>> >> >>
Stars == << << I(0), I(0) >>, << I(359), I(45) >>, << I(200), I(-80) >>, << I(90), Q(-1, 10) >> >>
Init == ra = 0 /\ dec \in { x - 90 : x \in DecSteps } /\ roll = 0 /\ ref = 1 /\ star = 1
Turn == ra < 315 /\ ra' = ra + 45 /\ UNCHANGED << dec, roll, ref, star >>
Roll == roll + RollStep < 360 /\ roll' = roll + RollStep /\ UNCHANGED << ra, dec, ref, star >>
Rename == ref < 3 /\ ref' = ref + 1 /\ UNCHANGED << ra, dec, roll, star >>
Look == star < 4 /\ star' = star + 1 /\ UNCHANGED << ra, dec, roll, ref >>
Next == Turn \/ Roll \/ Rename \/ Look
P(r) == [ra |-> I(ra), dec |-> I(dec), roll |-> I(r), ref |-> Refs[ref]]
p == P(roll)
s1 == Stars[star]
s2 == Stars[(star % 4) + 1]
DirOf(s) == TravelDir(p, s[1], s[2])
Rigid == /\ IsUnit(DirOf(s1), E12)
         /\ Near(Dot(DirOf(s1), DirOf(s2)), Dot(SkyVec(s1[1], s1[2]), SkyVec(s2[1], s2[2])), E12)
         /\ Near(Dot(PX(p), Cross(PY(p), PZ(p))), One, E12)
OnAxis == VNear(TravelDir(p, p.ra, p.dec), AppVec(p.ref, << I(-1), Zero, Zero >>), E12)
(* rolling by one more step turns the image about the axis *)
RollTurns == LET q == P(roll + RollStep)
                 ax == AppVec(p.ref, << One, Zero, Zero >>)
                 a == Rad(I(RollStep))
             IN  VNear(TravelDir(q, s1[1], s1[2]), Rodrigues(DirOf(s1), ax, Cos(a), Sin(a)), E12)
NorthUp == roll = 0 => Near(Dot(AppVec(p.ref, << Zero, Zero, One >>), OnInstr(p, NorthAt(p.ra, p.dec))), One, E12)
PolOK == LET n == PolVec(p, s1[1], s1[2], Zero)
             e == PolVec(p, s1[1], s1[2], Div(Pi, I(2)))
             r == Rad(I(roll))
             m == PolVec(p, s1[1], s1[2], r)
             b == Sub(s1[1], Q(1, 1000000))       \* a little to the west
         IN  /\ Near(Dot(n, DirOf(s1)), Zero, E12) /\ Near(Dot(e, DirOf(s1)), Zero, E12)
             /\ IsUnit(m, E12) /\ Near(Dot(m, DirOf(s1)), Zero, E12)
             /\ Near(Dot(m, n), Cos(r), E12) /\ Near(Dot(m, e), Sin(r), E12)
             (* east is where the right ascension grows; light from the east travels west *)
             /\ Gt(Dot(e, VSub(TravelDir(p, b, s1[2]), DirOf(s1))), Zero)
             /\ VNear(Cross(DirOf(s1), n), e, E12)
(* the turn between two polarized rays is found again *)
TurnOK == LET a == Rad(I(roll))
              u == Unit(<< One, I(2), I(ref) >>)
              d1 == Rodrigues(DirOf(s1), u, Cos(a), Sin(a))
              q == PolVec(p, s1[1], s1[2], One)
              q1 == Rodrigues(q, u, Cos(a), Sin(a))
          IN  VNear(AxisSin(TurnOf(DirOf(s1), q, d1, q1)), VScale(Sin(a), u), E10)
(* shapes: a circle around the star, walked by the roll angle *)
Ring == LET a == Rad(I(dec + 91))  r == Rad(I(roll))
            v == VAdd(VScale(Cos(a), SkyVec(s1[1], s1[2])),
                      VScale(Sin(a), VAdd(VScale(Cos(r), NorthAt(s1[1], s1[2])), VScale(Sin(r), EastAt(s1[1], s1[2])))))
            c == SkyVec(s1[1], s1[2])
        IN  /\ InRing(c, v, a, a, E10) /\ ~InRing(c, v, Mul(a, Q(11, 10)), Mul(a, Q(12, 10)), E10)
            /\ ~InRing(c, v, Zero, Mul(a, Q(9, 10)), E10)
            /\ Near(RingShare(c, v, Zero, a), One, E9) /\ Near(OffE(s1, v), Mul(Sin(a), Sin(r)), E10)
Letter == LET s == Rad(I(ref)) IN
    /\ Stroke(s1, LonLat(s1, Mul(Q(roll, 360), s), Zero), s, E10) = 1
    /\ Stroke(s1, LonLat(s1, s, Mul(Q(roll, 720), s)), s, E10) = (IF roll = 0 THEN 1 ELSE 2)
    /\ Stroke(s1, LonLat(s1, Mul(Q(8, 10), s), Mul(Q(roll, 1500), s)), s, E10) = (IF roll = 0 THEN 1 ELSE 3)
    /\ (roll > 0 => Stroke(s1, LonLat(s1, Mul(Q(1, 2), s), Mul(Q(roll, 1000), s)), s, E10) = 0)
    /\ (roll > 180 => Stroke(s1, LonLat(s1, s, Mul(Q(roll, 360), s)), s, E10) = 0)
    /\ Stroke(s1, LonLat(s1, Mul(Q(-1, 2), s), Zero), s, E10) = 0
=============================================================================
