------------------------------ MODULE MirrorsMC ------------------------------
(* A photon bounces from mirror to mirror; at every bounce the mirror and its *)
(* reflectivities are chosen anew.                                            *)
EXTENDS Mirrors
CONSTANTS MaxBounce, Many
VARIABLES d, p, w, last
vars == << d, p, w, last >>
Dirs == { <<Opp(One), Zero, Zero>>, <<Q(2, 3), Q(-1, 3), Q(2, 3)>> }
Normals == { <<Q(3, 5), Q(4, 5), Zero>>, <<Q(-6, 7), Q(2, 7), Q(3, 7)>> } \cup
           (IF Many THEN { <<Zero, Q(5, 13), Q(-12, 13)>>, <<Q(1, 3), Q(2, 3), Q(2, 3)>> } ELSE {})
Refl == { <<One, One>>, <<One, Zero>>, <<Q(1, 4), Q(9, 16)>> }
Angles == { <<One, Zero>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-5, 13), Q(12, 13)>> }
Init == /\ d \in Dirs /\ w = One /\ last = << >>
        /\ \E a \in Angles : LET e1 == Unit(Cross(d, <<Zero, Zero, One>>)) IN p = VAdd(VScale(a[1], e1), VScale(a[2], Cross(d, e1)))
Next == /\ (IF last = << >> THEN TRUE ELSE last.n < MaxBounce)
        /\ \E n \in Normals, r \in Refl :
             /\ Oblique(d, n)
             /\ LET k == Weight(d, n, p, r[1], r[2])
                IN  /\ Gt(k, E6)
                    /\ d' = Mirrored(d, n) /\ p' = OutPol(d, n, p, r[1], r[2]) /\ w' = Mul(w, k)
                    /\ last' = [d |-> d, p |-> p, nrm |-> n, r |-> r, k |-> k, n |-> IF last = << >> THEN 1 ELSE last.n + 1]
UnitOK == IsUnit(d, E9) /\ IsUnit(p, E9) /\ Near(Dot(d, p), Zero, E9)
WeightOK == Ge(w, Zero) /\ Le(w, Add(One, E9))
B == last # << >>
AngleOK == B => /\ Near(Dot(d, last.nrm), Opp(Dot(last.d, last.nrm)), E9)
                /\ Near(Dot(d, Cross(last.d, last.nrm)), Zero, E9)
BackOK == B => VNear(Mirrored(d, last.nrm), last.d, E9)
(* light polarized one way and the other loses together what unpolarized light does *)
ShareOK == B => LET o == Cross(last.d, last.p)
                IN Near(Add(last.k, Weight(last.d, last.nrm, o, last.r[1], last.r[2])), Add(last.r[1], last.r[2]), E9)
PureOK == (B /\ last.r = <<One, Zero>>) => /\ Near(Dot(p, last.nrm), Zero, E8)
                                           /\ Near(Weight(last.d, last.nrm, OutPol(last.d, last.nrm, last.p, One, Zero), One, Zero), One, E8)
LossOK == (B /\ last.r = <<One, One>>) => Near(last.k, One, E9) /\ SameLine(Turned(p, last.nrm), last.p, E8)
=============================================================================
