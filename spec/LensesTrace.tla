----------------------------- MODULE LensesTrace -----------------------------
(*  lens:   kind "perfect"/"thin", M, f, d                                     *)
(*  photon: b, a rows; asked = [en, ang, r] what the reflectivity table was    *)
(*          asked and answered (perfect lens), or asked.none                   *)
(*  meet:   the points two rays of a parallel bundle reach                      *)
EXTENDS Lenses, TraceBase
TraceSt0 == [kind |-> "none"]
PhotonCk(s, e) ==
  LET p == Unit(XYZ(e.b.dir))
      surf == [shape |-> "plane", M |-> s.M]
      X == HitPoint(surf, XYZ(e.b.pos), XYZ(e.b.dir))
      q == XYZ(e.a.dir)
      F == Focus(s.M, s.d, s.f, p)
      r == VSub(X, Ctr(s.M))
      k == s.kind \o " lens: "
  IN << <<k \o "energy unchanged", e.a.en = e.b.en>>,
        <<k \o "hit position recorded", VClose(XYZ(e.a.pos), X, E8) /\ e.a.pos[4] = One>>,
        <<k \o "direction is a unit vector", IsUnit(q, E9) /\ e.a.dir[4] = Zero>> >>
     \o (IF s.kind = "perfect"
         THEN << <<k \o "sent to the focus", LET D == VSub(F, X) IN
                     VNear(Cross(q, D), V0, Mul(E8, Add(One, Norm(D)))) /\ Gt(Dot(q, D), Zero)>> >>
              \o (IF e.asked.none THEN << <<k \o "no losses without a reflectivity table", e.a.prob = e.b.prob>> >>
                  ELSE << <<k \o "reflectivity asked for the photon's energy", e.asked.en = e.b.en>>,
                          <<k \o "reflectivity asked at a quarter of the deflection",
                             LET a4 == Mul(I(4), e.asked.ang) IN
                             /\ Near(Cos(a4), Dot(p, q), E7) /\ Near(Sin(a4), Norm(Cross(p, q)), E7)>>,
                          <<k \o "efficiency is the square of a single reflection",
                             Near(e.a.prob, Mul(e.b.prob, Sq(e.asked.r)), E10)>> >>)
         ELSE << <<k \o "turned as a thin lens does", VNear(q, ThinDir(s.M, s.f, p, X), E7)>>,
                 <<k \o "no losses", e.a.prob = e.b.prob>> >>)
     \o (IF Lt(Norm(r), E12) /\ (s.kind = "thin" \/ s.d = Zero) THEN << <<k \o "central ray passes straight", VNear(q, p, E9)>> >> ELSE <<>>)
TraceStep(s, e) ==
  CASE e.k = "lens" -> [st |-> e, ck |-> <<>>]
    [] e.k = "photon" -> [st |-> s, ck |->
          LET surf == [shape |-> "plane", M |-> s.M] IN
          IF Robust(surf, XYZ(e.b.pos), XYZ(e.b.dir)) /\ Hit(surf, XYZ(e.b.pos), XYZ(e.b.dir)) THEN PhotonCk(s, e) ELSE <<>>]
    (* rays 1 and 2 of one bundle, after the lens: their lines meet at distance f from the optical centre *)
    [] e.k = "meet" -> [st |-> s, ck |->
          LET A == OptCentre(s.M, s.d)
              F == VAdd(A, VScale(s.f, Unit(XYZ(e.dir))))
              Miss(x) == Norm(Cross(XYZ(x.dir), VSub(F, XYZ(x.pos))))
          IN << <<"parallel rays meet in one point", Le(Miss(e.r1), Mul(E8, Add(I(100), s.f))) /\ Le(Miss(e.r2), Mul(E8, Add(I(100), s.f)))>> >>]
=============================================================================
