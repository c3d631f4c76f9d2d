------------------------------ MODULE Gratings ------------------------------
(***************************************************************************)
(* Diffraction.  At the point where a ray p meets a grating the surface    *)
(* has an orthonormal frame: g along the grooves, t in the surface          *)
(* perpendicular to the grooves (the dispersion direction), n normal.       *)
(* In order m of a grating with period d at wavelength lambda               *)
(*      q.g = p.g      q.t = p.t + s*m*lambda/d       |q| = 1               *)
(* and sgn(q.n) = sgn(p.n) (transmission) or -sgn(p.n) (reflection).        *)
(* s = +1 for plain gratings: positive orders are displaced along t;        *)
(* s = sgn(p.t) for critical-angle gratings: the blazed side is the one     *)
(* of the negative orders, whichever way round the grating is mounted.      *)
(* Orders with |q.g|^2 + |q.t|^2 > 1 do not exist: the photon is lost.      *)
(***************************************************************************)
EXTENDS Surfaces
HC == <<1, 9843, 9841, 123>>               \* h*c in keV mm: 1.239841 9843e-6
Lambda(E) == Div(HC, E)
(* mlod = m*lambda/d evaluated with full precision: m*HC/(E*d) *)
MLD(m, E, d) == Div(Mul(m, HC), Mul(E, d))
Groove(ey, ez, ca, sa) == VSub(VScale(ca, ez), VScale(sa, ey))
Disp(ey, ez, ca, sa)   == VAdd(VScale(ca, ey), VScale(sa, ez))
Sgn(x) == IF Lt(x, Zero) THEN Opp(One) ELSE IF Gt(x, Zero) THEN One ELSE Zero
SignOf(kind, pt) == IF kind = "flat" THEN One
                    ELSE IF pt = Zero THEN Opp(One) ELSE Sgn(pt)
(* local surface frame at the point X of surface s: <<ey, ez, n>> *)
FrameAt(s, X) ==
    IF s.shape = "plane" THEN << Unit(AY(s.M)), Unit(AZ(s.M)), Unit(AX(s.M)) >>
    ELSE LET n == CylNormal(s.M, LocalP(s.M, X))
             ez == Unit(AZ(s.M))
         IN << Cross(ez, n), ez, n >>
Excess(p, g, t, x) == Sub(Add(Sq(Add(Dot(p, t), x)), Sq(Dot(p, g))), One)
(* the outgoing ray *)
Diffract(p, g, t, n, x, refl) ==
    LET qt == Add(Dot(p, t), x)
        qg == Dot(p, g)
        qn == Sqrt(Sub(One, Add(Sq(qt), Sq(qg))))
        sg == Mul(Sgn(Dot(p, n)), IF refl THEN Opp(One) ELSE One)
    IN  VAdd(VAdd(VScale(qg, g), VScale(qt, t)), VScale(Mul(sg, qn), n))
(* the ray seen along the grooves: <<|cos|, |sin|>> of its angle to the normal *)
BlazeCS(p, g, t, n) == LET u == Unit(VSub(p, VScale(Dot(p, g), g)))
                       IN << Abs(Dot(u, n)), Abs(Dot(u, t)) >>
=============================================================================
