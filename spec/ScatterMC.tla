------------------------------ MODULE ScatterMC ------------------------------
(* A ray is turned in the plane, then across it, with angles of rational sine *)
(* and cosine, in all arrangements of a few rays and centre lines.            *)
EXTENDS Scatter
CONSTANTS Many
VARIABLES d0, r, d, turns
vars == << d0, r, d, turns >>
Dirs == { <<Opp(One), Zero, Zero>>, <<Q(3, 5), Zero, Q(4, 5)>>, <<Q(-2, 3), Q(1, 3), Q(2, 3)>> }
        \cup (IF Many THEN { <<Zero, One, Zero>>, <<Q(6, 7), Q(-3, 7), Q(2, 7)>>, <<Zero, Q(-5, 13), Q(12, 13)>> } ELSE {})
Lines == { <<Zero, I(2), Zero>>, <<Zero, I(-3), I(4)>>, <<One, One, Q(1, 2)>> }
        \cup (IF Many THEN { <<I(5), Zero, Zero>>, <<Q(1, 10), I(-7), I(2)>> } ELSE {})
Angles == { <<One, Zero>>, <<Q(4, 5), Q(3, 5)>>, <<Q(4, 5), Q(-3, 5)>>, <<Q(12, 13), Q(5, 13)>> }
        \cup (IF Many THEN { <<Q(-7, 25), Q(24, 25)>>, <<Q(99, 101), Q(-20, 101)>> } ELSE {})
Init == d0 \in Dirs /\ r \in Lines /\ HasPlane(d0, r) /\ d = d0 /\ turns = << >>
Next == \/ Len(turns) = 0 /\ \E a \in Angles : d' = InPlane(d, r, a[1], a[2]) /\ turns' = <<a>> /\ UNCHANGED << d0, r >>
        \/ Len(turns) = 1 /\ \E a \in Angles : d' = AcrossPlane(d, r, a[1], a[2]) /\ turns' = Append(turns, a) /\ UNCHANGED << d0, r >>
UnitOK == IsUnit(d, E10)
n == Unit(Cross(d0, r))
PlaneOK == Len(turns) = 1 => /\ Near(Dot(d, n), Zero, E10)
                             /\ Near(Dot(d, d0), turns[1][1], E10)
                             /\ Near(Dot(d, Cross(n, d0)), turns[1][2], E10)
LineOK == Len(turns) = 2 =>
    LET m == InPlane(d0, r, turns[1][1], turns[1][2])
        w == Norm(Cross(Unit(r), m))
    IN  /\ Near(Dot(d, r), Dot(m, r), E9)
        /\ Near(Abs(Dot(d, n)), Mul(Abs(turns[2][2]), w), E9)       \* leaves the plane by the angle across it
        /\ (Near(Dot(d0, r), Zero, E12) => Near(Dot(d, d0), Mul(turns[1][1], turns[2][1]), E9))
ZeroOK == (Len(turns) = 2 /\ turns[1][2] = Zero /\ turns[2][2] = Zero) => VNear(d, d0, E10)
(* opposite angles turn to opposite sides *)
OctOK ==
    LET e1 == Unit(Cross(d0, Least(d0)))
        x == Abs(Dot(d, e1))
        y == Abs(Dot(d, Cross(d0, e1)))
    IN (Gt(x, E9) /\ Gt(y, E9) /\ Gt(Abs(Sub(x, y)), E9)) =>
         Octant(d0, VSub(VScale(Mul(I(2), Dot(d, d0)), d0), d), TRUE) = Octant(d0, d, FALSE)
=============================================================================
