---------------------------- MODULE SurfacesTrace ----------------------------
(* Recorded calls of the intersection routines of the code.                  *)
(*  place: shape, M, arc        - the surface now under test                 *)
(*  ray: p, d (given), exact    - and what the code returned:                *)
(*       hit, pos (3), w, loc (2), e1, e2, en (4 each)                       *)
EXTENDS Surfaces, TraceBase
Tol == E9
TraceSt0 == [shape |-> "none"]
RayClauses(s, e) ==
  LET h == Hit(s, e.p, e.d)
      known == e.exact \/ Robust(s, e.p, e.d)
      hp == HitPoint(s, e.p, e.d)
      q == LocalP(s.M, hp)
      ny == Norm(AY(s.M))
      nz == Norm(AZ(s.M))
      pre == s.shape \o "-"
  IN (IF known THEN << <<pre \o "hit-exactly-when-met", e.hit = h>> >> ELSE <<>>)
     \o (IF ~e.hit
         THEN << <<pre \o "miss-is-undefined", NaN3(e.pos) /\ IsNaN(e.loc[1]) /\ IsNaN(e.loc[2])>> >>
         ELSE << <<pre \o "point-on-surface", OnSurface(s, e.pos, E6)>>,
                 <<pre \o "point-homogeneous", Near(e.w, One, Tol)>> >>
              \o (IF ~(known /\ h) THEN <<>>
                  ELSE << <<pre \o "nearest-forward-point", VNear(e.pos, hp, Mul(IF s.shape = "plane" THEN E8 ELSE E6, Add(One, Abs(HitT(s, e.p, e.d)))))>> >>
                       \o (IF s.shape = "plane"
                           THEN << <<"plane-local-coordinates",
                                     Close(e.loc[1], Mul(q[2], ny), E7) /\ Close(e.loc[2], Mul(q[3], nz), E7)>>,
                                   <<"plane-bases", /\ VNear(e.e1, Unit(AY(s.M)), Tol)
                                                    /\ VNear(e.e2, Unit(AZ(s.M)), Tol)
                                                    /\ VNear(e.en, Unit(AX(s.M)), Tol)>> >>
                           ELSE << <<"cylinder-local-coordinates",
                                     /\ Near(Cos(e.loc[1]), q[1], E7) /\ Near(Sin(e.loc[1]), q[2], E7)
                                     /\ Close(e.loc[2], Mul(q[3], nz), E7)>>,
                                   <<"cylinder-bases",
                                     /\ VNear(e.e2, Unit(AZ(s.M)), E7)
                                     /\ VNear(e.en, CylNormal(s.M, q), E7)
                                     /\ IsUnit(XYZ(e.e1), E7)
                                     /\ Near(Dot(XYZ(e.e1), XYZ(e.en)), Zero, E7)
                                     /\ Near(Dot(XYZ(e.e1), XYZ(e.e2)), Zero, E7)
                                     /\ Gt(Dot(XYZ(e.e1), VSub(VScale(q[1], Unit(AY(s.M))), VScale(q[2], Unit(AX(s.M))))), Zero)>> >>)
                       \o << <<pre \o "bases-are-vectors", e.e1[4] = Zero /\ e.e2[4] = Zero /\ e.en[4] = Zero>> >>))
TraceStep(s, e) ==
  CASE e.k = "place" -> [st |-> [shape |-> e.shape, M |-> e.M, arc |-> e.arc], ck |-> <<>>]
    [] e.k = "ray" -> [st |-> s, ck |-> RayClauses(s, e)]
    [] e.k = "same" -> [st |-> s, ck |-> << <<e.what, e.a = e.b>> >>]
=============================================================================
