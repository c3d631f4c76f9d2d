------------------------------- MODULE Lenses -------------------------------
(***************************************************************************)
(* Ideal lenses.  A perfect lens with optical centre A and focal length f   *)
(* sends every ray of direction p to the one point A + f*p that the ray     *)
(* through the optical centre reaches.  A is the centre of the element, or  *)
(* d away from it along the element's z axis for an off-axis segment.       *)
(* A thin lens turns the ray by (distance from the centre)/f radian in the  *)
(* plane of ray and centre, towards the axis.                               *)
(***************************************************************************)
EXTENDS Surfaces
OptCentre(M, d) == VSub(Ctr(M), VScale(d, Unit(AZ(M))))
Focus(M, d, f, p) == VAdd(OptCentre(M, d), VScale(f, p))
PerfectDir(M, d, f, p, X) == Unit(VSub(Focus(M, d, f, p), X))
ThinAngle(M, f, X) == Div(Norm(VSub(X, Ctr(M))), f)
ThinDir(M, f, p, X) ==
    LET r == VSub(X, Ctr(M))
        a == ThinAngle(M, f, X)
    IN  IF Lt(Norm(r), E12) THEN p
        ELSE Rodrigues(p, Unit(Cross(p, r)), Cos(a), Opp(Sin(a)))
=============================================================================
