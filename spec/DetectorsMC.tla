----------------------------- MODULE DetectorsMC -----------------------------
(* A spot moves over detectors of several sizes in steps of half a pixel,     *)
(* along either axis (flat) or along the arc (curved); counting steps must     *)
(* agree with the pixel coordinates.                                          *)
EXTENDS Detectors, TLC
CONSTANT MaxN
VARIABLES kind, n, w, x
vars == << kind, n, w, x >>
Init == /\ kind \in {"flat", "curved"} /\ n \in 1..MaxN /\ w \in { Q(1, 4), Q(3, 100), I(7) }
        /\ x = 0
Next == x < 2 * n /\ x' = x + 1 /\ UNCHANGED << kind, n, w >>
Len1 == Mul(I(n), w)
(* flat: x half pixels from the lower edge *)
Y == Sub(Mul(Q(x, 2), w), Div(Len1, I(2)))
FlatOK == kind = "flat" =>
    /\ NPixOK(n, Len1, w) /\ (x > 0 => ~NPixOK(n + x, Len1, w)) /\ IsInteger(n, Len1, w)
    /\ Near(FlatPix(Y, n, w), Sub(Q(x, 2), Q(1, 2)), E9)          \* edge at -1/2, first centre at 0, last at n-1
    /\ Near(FlatPix(Y, n, w), Opp(Sub(FlatPix(Opp(Y), n, w), I(n - 1))), E9)   \* mirror image
Rot == << <<I(2), Zero, Zero, One>>, <<Zero, Zero, I(-3), I(5)>>, <<Zero, I(2), Zero, Zero>>, <<Zero, Zero, Zero, One>> >>
Angle == Mul(Q(x, 2), Div(w, I(20)))
CurvedOK == (kind = "curved" /\ Le(Angle, I(3))) =>      \* less than half a turn either way
    LET X == AppPt(Rot, << Cos(Angle), Sin(Angle), Q(1, 3) >>)
    IN  /\ ArcPhiOK(Rot, X, Angle)
        /\ Near(AxPos(Rot, X), One, E9)
        /\ Near(ArcPix(Rot, Angle, Div(w, I(10))), Q(x, 2), E9)
Tab(f) == [en |-> << One, I(2), I(4) >>, w |-> << Q(1, 10), Q(2, 10), Q(1, 10) >>, fwhm |-> f]
WidthOK == /\ Near(Sigma(Tab(FALSE), I(3)), Q(15, 100), E12) /\ Near(Sigma(Tab(FALSE), Q(1, 10)), Q(1, 10), E12)
           /\ Near(Sigma(Tab(FALSE), I(9)), Q(1, 10), E12) /\ Near(Sigma(Tab(FALSE), I(2)), Q(2, 10), E12)
           /\ Near(Mul(Sigma(Tab(TRUE), I(2)), I(1)), Q(84932180, 1000000000), E8)
NormalOK == /\ Near(Phi(Zero), Q(1, 2), E12) /\ Near(Phi(One), Q(841344746, 1000000000), E8)
            /\ Near(Add(Phi(Q(x, 2)), Phi(Q(-x, 2))), One, E12)
            /\ Near(Sub(Phi(One), Phi(I(-1))), Q(682689492, 1000000000), E9)
            /\ Near(Sub(Phi(I(2)), Phi(I(-2))), Q(954499736, 1000000000), E9)
            /\ Lt(Phi(I(-6)), E8) /\ Gt(Phi(I(-6)), Zero) /\ Near(Phi(Q(69, 10)), One, E10)
(* the statistical tests tell right from wrong *)
Even(k, m) == [i \in 1..m |-> Q(2 * i - 1, 2 * m)]
NotVacuous == x = 0 => /\ Uniform(Even(0, 40)) /\ ~Uniform([i \in 1..400 |-> Sq(Q(2 * i - 1, 800))])
                       /\ ~StdNormal([i \in 1..300 |-> Zero]) /\ ~StdNormal([i \in 1..300 |-> Q((i % 7) - 3, 1)])
                       /\ ~StdNormal([i \in 1..300 |-> Add(Q((i % 5) - 2, 2), One)])
=============================================================================
