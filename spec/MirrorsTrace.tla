----------------------------- MODULE MirrorsTrace -----------------------------
(*  mirror: placement M; layered: tables tab, pol of a multilayer                   *)
(*  bounce: b, a rows of a photon that hits a mirror with reflectivities rs, rp     *)
(*  layer:  b, a rows of a photon that hits the layer system alone                  *)
(*          (its polarization is undefined if it was lost before)                  *)
(*  both:   b, a rows of a photon that hits a complete multilayer mirror            *)
(*  miss:   photon that does not hit                                                *)
EXTENDS Mirrors, TraceBase
TraceSt0 == [k |-> "none"]
Geom(s, e) ==
  LET d == XYZ(e.b.dir)
      n == Unit(AX(s.M))
      X == HitPoint([shape |-> "plane", M |-> s.M], XYZ(e.b.pos), d)
  IN << <<"mirrored at the surface", VNear(XYZ(e.a.dir), Mirrored(d, n), E9) /\ e.a.dir[4] = Zero>>,
        <<"hit position recorded", VClose(XYZ(e.a.pos), X, E8) /\ e.a.pos[4] = One>>,
        <<"energy unchanged", e.a.en = e.b.en>> >>
Pol(s, e, rs, rp) ==
  LET d == XYZ(e.b.dir)
      n == Unit(AX(s.M))
      p == XYZ(e.b.pol)
  IN IF Gt(Weight(d, n, p, rs, rp), E6)
     THEN << <<"polarization after the mirror", SameLine(XYZ(e.a.pol), OutPol(d, n, p, rs, rp), E7) /\ e.a.pol[4] = Zero>> >>
     ELSE << >>
Valid(e) == << <<"a photon that is not lost has a valid polarization",
                  e.a.prob # Zero => (IsUnit(XYZ(e.a.pol), E8) /\ Near(Dot(XYZ(e.a.pol), XYZ(e.a.dir)), Zero, E8))>>,
               <<"a lost photon stays lost", e.b.prob = Zero => e.a.prob = Zero>> >>
Prob(s, e, rs, rp, extra) ==
  LET k == Mul(Weight(XYZ(e.b.dir), Unit(AX(s.M)), XYZ(e.b.pol), rs, rp), extra)
  IN Near(e.a.prob, Mul(e.b.prob, k), E7)
Lay(s, e) == Layer(s.tab, s.pol, Along(s.M, HitPoint([shape |-> "plane", M |-> s.M], XYZ(e.b.pos), XYZ(e.b.dir))), e.b.en)
TraceStep(s, e) ==
  CASE e.k \in {"mirror", "layered"} -> [st |-> e, ck |-> << >>]
    [] e.k = "miss" -> [st |-> s, ck |-> << <<"photons that miss are not changed", e.a = e.b>> >>]
    [] NaN3(e.b.pol) -> [st |-> s, ck |-> IF e.k = "layer" THEN << >> ELSE Geom(s, e) \o Valid(e)]
    [] ~Oblique(XYZ(e.b.dir), Unit(AX(s.M))) -> [st |-> s, ck |-> IF e.k = "layer" THEN << >> ELSE Geom(s, e)]
    [] e.k = "bounce" -> [st |-> s, ck |-> Geom(s, e) \o Valid(e) \o Pol(s, e, e.rs, e.rp) \o
         << <<"probability weighs both polarizations with their reflectivity", Prob(s, e, e.rs, e.rp, One)>> >>]
    [] e.k = "layer" -> [st |-> s, ck |->
         << <<"layers: direction, energy and polarization unchanged", e.a.dir = e.b.dir /\ e.a.en = e.b.en /\ e.a.pol = e.b.pol>>,
            <<"layers: efficiency of the wavelength at this place", Near(e.a.prob, Mul(e.b.prob, Lay(s, e)), E5)>> >>]
    [] e.k = "both" -> [st |-> s, ck |-> Geom(s, e) \o Valid(e) \o Pol(s, e, One, Zero) \o
         << <<"multilayer mirror: weight of the polarization and of the layers", Prob(s, e, One, Zero, Lay(s, e)) \/ Near(e.a.prob, Mul(e.b.prob, Mul(Weight(XYZ(e.b.dir), Unit(AX(s.M)), XYZ(e.b.pol), One, Zero), Lay(s, e))), E5)>> >>]
=============================================================================
