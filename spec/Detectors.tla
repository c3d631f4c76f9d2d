------------------------------ MODULE Detectors ------------------------------
(***************************************************************************)
(* Detectors.  A flat detector spans 2|Y| by 2|Z| around its centre; its    *)
(* pixels have size w, there are NPix of them along an axis, and the centre *)
(* of the first is at 0.  A curved detector counts pixels along its arc     *)
(* from the local x axis and along its axis from the centre.                *)
(* The charge resolution of a CCD spreads the energy normally around the    *)
(* true energy with the tabulated width.                                    *)
(***************************************************************************)
EXTENDS Surfaces, Stats
(* number of pixels: the length divided by the pixel size, rounded; n is right if it is a nearest integer *)
NPixOK(n, len, w) == Le(Abs(Sub(Div(len, w), I(n))), Add(Q(1, 2), E6))
NotInteger(n, len, w) == Gt(Abs(Sub(Div(len, w), I(n))), Q(101, 10000))
IsInteger(n, len, w) == Lt(Abs(Sub(Div(len, w), I(n))), Q(99, 10000))
FlatPix(y, n, w) == Add(Div(y, w), Q(n - 1, 2))
(* physical position on the detector, along its own unit axes *)
FlatPos(M, X) == << Dot(VSub(X, Ctr(M)), Unit(AY(M))), Dot(VSub(X, Ctr(M)), Unit(AZ(M))) >>
(* curved: phi is the angle of the point around the axis, s its position along the axis *)
ArcPhiOK(M, X, phi) == LET q == LocalP(M, X) IN
    Near(Cos(phi), q[1], E8) /\ Near(Sin(phi), q[2], E8) /\ Le(Abs(phi), Add(Pi, E9))
ArcPix(M, phi, w) == Div(Mul(phi, Norm(AX(M))), w)
AxPos(M, X) == Dot(VSub(X, Ctr(M)), Unit(AZ(M)))
(* charge resolution *)
FwhmOverSigma == <<1, 9493, 5030, 2004, 3548, 2>>        \* 2 sqrt(2 ln 2)
Sigma(tab, en) == LET s == LinInterp(tab.en, tab.w, en) IN IF tab.fwhm THEN Div(s, FwhmOverSigma) ELSE s
=============================================================================
