------------------------------ MODULE Apertures ------------------------------
(***************************************************************************)
(* Openings through which photons enter, and sources in the laboratory.     *)
(* An opening has a placement matrix M (columns: normal, two edges, centre); *)
(* local coordinates (a, b) count in units of the two edges.                *)
(***************************************************************************)
EXTENDS Sources
Centre(M) == Col3(M, 4)
EdgeA(M) == Col3(M, 2)
EdgeB(M) == Col3(M, 3)
Normal(M) == Unit(Col3(M, 1))
Along(v, e) == LET n == Norm(e) IN Div(Dot(v, Scaled(e, n)), n)
LocA(M, p) == Along(VSub(p, Centre(M)), EdgeA(M))
LocB(M, p) == Along(VSub(p, Centre(M)), EdgeB(M))
Height(M, p) == Dot(VSub(p, Centre(M)), Normal(M))
Scale(M) == Max2(Norm(EdgeA(M)), Norm(EdgeB(M)))
InPlane(M, p) == Le(Abs(Height(M, p)), Mul(E10, Add(Scale(M), MaxAbs(Centre(M)))))
OnPoint(M, a, b) == VAdd(Centre(M), VAdd(VScale(a, EdgeA(M)), VScale(b, EdgeB(M))))
(* weight of a photon that travels along d: cosine of the inclination, nothing through the back *)
Shown(M, d) == Max2(Zero, Min2(One, Opp(Dot(d, Normal(M)))))
(* --- rectangles ------------------------------------------------------- *)
RectArea(M) == Mul(I(4), Mul(Norm(EdgeA(M)), Norm(EdgeB(M))))
InUnit(x, tol) == Le(Abs(x), Add(One, tol))
(* --- sectors of rings: ri, ro radii; angles from edge A to edge B -------- *)
RingArea(ri, ro, f0, f1) == Div(Mul(Sub(f1, f0), Sub(Sq(ro), Sq(ri))), I(2))
Turned(f) == << Cos(f), Sin(f) >>
Cross2(u, v) == Sub(Mul(u[1], v[2]), Mul(u[2], v[1]))
(* is (a, b) between the directions u and v, less than half a turn apart? *)
InWedge(u, v, q, tol) == Ge(Cross2(u, q), Opp(tol)) /\ Ge(Cross2(q, v), Opp(tol))
Part(f0, f1, k, n) == Add(f0, Div(Mul(I(k), Sub(f1, f0)), I(n)))
Borders(f0, f1) == << Turned(f0), Turned(Part(f0, f1, 1, 8)), Turned(Part(f0, f1, 2, 8)), Turned(Part(f0, f1, 3, 8)),
                      Turned(Part(f0, f1, 4, 8)), Turned(Part(f0, f1, 5, 8)), Turned(Part(f0, f1, 6, 8)),
                      Turned(Part(f0, f1, 7, 8)), Turned(f1) >>
InAngles(bd, q, tol) == \E k \in 1..8 : InWedge(bd[k], bd[k + 1], q, tol)
(* q: sequence of points (a, b) that lie inside of the range; evenly over the angle *)
EvenAngles(bd, q) == \A k \in 1..8 :
    Plausible(Cardinality({ i \in DOMAIN q : InWedge(bd[k], bd[k + 1], q[i], Zero) }), Len(q), Q(1, 8))
(* share of the ring further in than (a, b); rho = ri / ro *)
RingPart(q, rho) == Div(Sub(Add(Sq(q[1]), Sq(q[2])), Sq(rho)), Sub(One, Sq(rho)))
(* two shares, each even in 0..1, independent of each other: nine fields alike *)
Third(x) == IF Lt(x, Q(1, 3)) THEN 0 ELSE IF Lt(x, Q(2, 3)) THEN 1 ELSE 2
Independent(x, y) == \A i \in 0..2 : \A j \in 0..2 :
    Plausible(Cardinality({ n \in DOMAIN x : Third(x[n]) = i /\ Third(y[n]) = j }), Len(x), Q(1, 9))
(* --- choice between openings in proportion to their areas (integers) ------ *)
RECURSIVE Upto(_, _)
Upto(ar, i) == IF i = 0 THEN 0 ELSE ar[i] + Upto(ar, i - 1)
Owner(ar, u) == CHOOSE i \in DOMAIN ar : Upto(ar, i - 1) <= u /\ u < Upto(ar, i)
(* --- beams around an axis x: shares in 0..1 of solid angle ---------------- *)
ChordTo(x, d) == Norm(VSub(d, x))
MaxChord(h) == Mul(I(2), Sin(Div(h, I(2))))
(* two directions across x *)
Across1(x) == IF Le(Abs(x[1]), Q(1, 2)) THEN Unit(Cross(x, << One, Zero, Zero >>)) ELSE Unit(Cross(x, << Zero, One, Zero >>))
Across2(x) == Cross(x, Across1(x))
(* polarization: angle 0 next to +y, counted to the right-hand side about the ray *)
PolFrame(d, ang) ==
    LET v1 == Unit(VSub(<< Zero, One, Zero >>, VScale(d[2], d)))
    IN  VAdd(VScale(Cos(ang), v1), VScale(Sin(ang), Cross(d, v1)))
=============================================================================
