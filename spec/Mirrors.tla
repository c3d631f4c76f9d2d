------------------------------- MODULE Mirrors -------------------------------
(***************************************************************************)
(* Flat mirrors.  d is the direction of a photon, n the normal of the      *)
(* mirror, p the polarization; rs and rp are the reflectivities for the    *)
(* polarization perpendicular to and in the plane of incidence.            *)
(* Multilayers: reflectivity data are tabulated along one direction over   *)
(* the mirror, and were measured with light that was partly polarized.     *)
(***************************************************************************)
EXTENDS Surfaces, Stats
Mirrored(d, n) == VSub(d, VScale(Mul(I(2), Dot(d, n)), n))
SVec(d, n) == Unit(Cross(d, n))
PVec(d, n) == Cross(d, SVec(d, n))
Weight(d, n, p, rs, rp) == Add(Mul(rs, Sq(Dot(p, SVec(d, n)))), Mul(rp, Sq(Dot(p, PVec(d, n)))))
(* field just before the mirror, damped; a mirror turns the field tangential to it around *)
Damped(d, n, p, rs, rp) == VAdd(VScale(Mul(Sqrt(rs), Dot(p, SVec(d, n))), SVec(d, n)),
                                VScale(Mul(Sqrt(rp), Dot(p, PVec(d, n))), PVec(d, n)))
Turned(f, n) == VSub(VScale(Mul(I(2), Dot(f, n)), n), f)
OutPol(d, n, p, rs, rp) == Unit(Turned(Damped(d, n, p, rs, rp), n))
SameLine(a, b, tol) == VNear(a, b, tol) \/ VNear(a, VNeg(b), tol)
Oblique(d, n) == Gt(Norm(Cross(d, n)), E3)
(* multilayer *)
HC == Q(123984198, 100000000)                            \* keV nm
Along(M, X) == Add(Dot(VSub(X, Ctr(M)), Unit(AY(M))), Norm(AY(M)))
FourLn2 == <<1, 2400, 2223, 7258, 7725, 2>>              \* 4 ln 2
Bell(lam, lam0, fwhm) ==
    LET x == Mul(FourLn2, Sq(Div(Sub(lam, lam0), fwhm))) IN IF Gt(x, I(30)) THEN Zero ELSE Div(One, Exp(x))
Layer(tab, pol, x, en) ==
    LET w == LinInterp(tab.x, tab.fwhm, x)
    IN  IF w = Zero THEN Zero
        ELSE Div(Mul(LinInterp(tab.x, tab.peak, x), Bell(Div(HC, en), LinInterp(tab.x, tab.lam, x), w)),
                 Mul(I(100), LinInterp(pol.en, pol.frac, en)))
=============================================================================
