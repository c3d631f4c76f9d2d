------------------------------ MODULE RowlandMC ------------------------------
(* Filling a range, and an arc, with elements one by one: the layout stops      *)
(* as soon as the range is covered; centres stay in the range, neighbours       *)
(* never overlap.  Points of a torus satisfy its equation and give back their    *)
(* angles and normals.                                                           *)
EXTENDS Rowland, TLC
CONSTANTS MaxW, MaxD, MaxK
VARIABLES lo, w, d, n, kind
vars == << lo, w, d, n, kind >>
Init == lo \in {-3, 0} /\ w \in 0..MaxW /\ d \in 1..MaxD /\ n = 1 /\ kind \in {"line", "arc"}
(* one more if the range is not covered / as long as one more fits *)
Add1 == /\ n < MaxK
        /\ (kind = "line" /\ n * d < w) \/ (kind = "arc" /\ (n + 1) * d <= w)
        /\ n' = n + 1 /\ UNCHANGED << lo, w, d, kind >>
Next == Add1
Spec == Init /\ [][Next]_vars
Done == ~ ENABLED Add1 /\ n < MaxK
LineC(i) == Spread(I(lo), I(lo + w), n, I(d), i)
LineOK == (Done /\ kind = "line") =>
    /\ IsCeil(n, Q(w, d), E9)
    /\ \A i \in 1..n : Between(LineC(i), I(lo), I(lo + w))
    /\ \A i \in 1..(n - 1) : Near(Sub(LineC(i + 1), LineC(i)), I(d), E12)
    /\ Le(Sub(LineC(1), Q(d, 2)), I(lo)) /\ Ge(Add(LineC(n), Q(d, 2)), I(lo + w))
    /\ \A m \in 1..MaxK : IsCeil(m, Q(w, d), E9) => m = n \/ (m * d = w) \/ ((m - 1) * d = w)
(* arc of inner length w; at the centres it is longer, by lo = -3 -> 1.5 times *)
Str == IF lo = 0 THEN One ELSE Q(3, 2)
ArcC(i) == ArcCentre(Q(lo, 7), I(w), n, Div(I(d), Str), i)
ArcOK == (Done /\ kind = "arc" /\ d <= w) =>
    /\ IsFloor(n, Q(w, d), E9)
    /\ \A i \in 1..n : /\ Ge(Sub(ArcC(i), Div(Q(d, 2), Str)), Sub(Q(lo, 7), E12))
                       /\ Le(Add(ArcC(i), Div(Q(d, 2), Str)), Add(Add(Q(lo, 7), I(w)), E12))
    /\ \A i \in 1..(n - 1) : Ge(Sub(ArcC(i + 1), ArcC(i)), Sub(Div(I(d), Str), E12))
(* the torus: radii d and w, angles n *)
R == I(d + 1)
Rr == Q(w + 1, 2)
TorusOK == kind = "line" => \A k \in 0..7 :
    LET th == Mul(Q(2 * n + lo, 8), Pi)  ph == Add(Mul(Q(k, 4), Pi), Q(1, 10))
        p == TorusPoint(R, Rr, th, ph)
        singular == Le(Hyp(p[1], p[3]), E6) IN
    /\ Near(Quartic(R, Rr, p), Zero, E8)
    /\ OnTorus(R, Rr, p, E9)
    /\ ~singular => (VNear(NormalAt(R, Rr, p), TorusNormal(th, ph), E6) \/ (Beyond(R, Rr, p) /\ Near(Hyp(p[1], p[3]), Zero, E6)))
    /\ ~OnTorus(R, Rr, VAdd(p, VScale(Div(Rr, I(100)), TorusNormal(th, ph))), E6)
FacingOK == kind = "arc" =>
    LET a == << I(d), I(lo), One >>  b == << I(-1), I(w), I(n) >>  f == Facing(a, b) IN
    MaxAbs(Cross(a, b)) # Zero =>
       /\ IsUnit(f[1], E10) /\ IsUnit(f[2], E10) /\ Near(Dot(f[1], f[2]), Zero, E10)
       /\ Near(Dot(f[3], b), Zero, E8) /\ Gt(Dot(f[2], b), Zero) /\ VNear(VScale(Norm(a), f[1]), a, E9)
=============================================================================
