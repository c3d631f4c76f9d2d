------------------------------- MODULE Rowland -------------------------------
(***************************************************************************)
(* The Rowland torus and the layouts of elements on it.                     *)
(* T = [R, r, M]: radii and placement (rigid); the symmetry axis is the y    *)
(* axis of the torus.                                                        *)
(***************************************************************************)
EXTENDS Apertures
(* --- the torus, in its own frame --------------------------------------- *)
TorusPoint(R, r, th, ph) ==
    LET q == Add(R, Mul(r, Cos(th))) IN << Mul(q, Cos(ph)), Mul(r, Sin(th)), Mul(q, Sin(ph)) >>
TorusNormal(th, ph) == << Mul(Cos(th), Cos(ph)), Sin(th), Mul(Cos(th), Sin(ph)) >>
Quartic(R, r, q) ==
    LET a == Sub(Add(Norm2(q), Sq(R)), Sq(r)) IN Sub(Sq(a), Mul(I(4), Mul(Sq(R), Add(Sq(q[1]), Sq(q[3])))))
Hyp(a, b) == Norm(<< a, b, Zero >>)
(* distance from the surface *)
OffTorus(R, r, q) ==
    LET rho == Hyp(q[1], q[3]) IN
    Min2(Abs(Sub(Hyp(Sub(rho, R), q[2]), r)), Abs(Sub(Hyp(Add(rho, R), q[2]), r)))
OnTorus(R, r, q, tol) == Le(OffTorus(R, r, q), Mul(tol, Add(R, r)))
(* outward normal of the sheet that q is on; sgn: -1 beyond the symmetry axis *)
Beyond(R, r, q) == LET rho == Hyp(q[1], q[3]) IN
    Lt(Abs(Sub(Hyp(Add(rho, R), q[2]), r)), Abs(Sub(Hyp(Sub(rho, R), q[2]), r)))
NormalAt(R, r, q) ==
    LET rho == Hyp(q[1], q[3])
        s == IF Beyond(R, r, q) THEN Opp(rho) ELSE rho
        radial == Sub(s, R)
    IN  Unit(<< Mul(radial, Div(q[1], s)), q[2], Mul(radial, Div(q[3], s)) >>)
(* --- frames: rigid motions ---------------------------------------------- *)
ToLocal(M, p) == LET v == VSub(p, Col3(M, 4)) IN << Dot(v, Col3(M, 1)), Dot(v, Col3(M, 2)), Dot(v, Col3(M, 3)) >>
(* requested facing: normal n, edge as close as possible to e *)
Facing(n, e) == LET x == Unit(n)  y == Unit(VSub(e, VScale(Dot(e, x), x))) IN << x, y, Cross(x, y) >>
(* --- how many elements --------------------------------------------------- *)
IsCeil(n, x, tol) == /\ n >= 1 /\ Ge(I(n), Sub(x, tol)) /\ (n = 1 \/ Lt(I(n - 1), Add(x, tol)))
IsFloor(n, x, tol) == Le(I(n), Add(x, tol)) /\ Gt(I(n + 1), Sub(x, tol))
(* n centres, d apart, in the middle of a range *)
Spread(lo, hi, n, d, i) == Add(Div(Add(lo, hi), I(2)), Mul(d, Sub(I(i), Q(n + 1, 2))))
(* n elements of angle w evenly over the angles f0 .. f0 + F: centre of number i *)
ArcCentre(f0, F, n, w, i) ==
    LET gap == Div(Sub(F, Mul(I(n), w)), I(n + 1)) IN
    Add(f0, Add(Mul(I(i), gap), Mul(Sub(I(i), Q(1, 2)), w)))
(* elements of size (a, b) do not overlap *)
Apart(p, q, a, b, tol) == Ge(Abs(Sub(p[1], q[1])), Sub(a, tol)) \/ Ge(Abs(Sub(p[2], q[2])), Sub(b, tol))
=============================================================================
