---------------------------- MODULE GratingsTrace ----------------------------
(*  grating: surf, kind, refl, ca, sa (groove angle), d0, da, db (period      *)
(*           d0*(1 + da*y + db*z), y = sin(phi) on a cylinder), bc, bm (blaze *)
(*           offset at the centre and per mm)                                 *)
(*  photon:  b, a (rows before and after), y, z, m, blaze (columns), sel      *)
(*           what the order table was given (en, blaze) and returned (m, p)   *)
EXTENDS Gratings, TraceBase
TraceSt0 == [kind |-> "none"]
Hits(el, b) == Hit(el.surf, XYZ(b.pos), XYZ(b.dir))
Sure(el, b) == Robust(el.surf, XYZ(b.pos), XYZ(b.dir))
PhotonCk(el, e) ==
  LET p == Unit(XYZ(e.b.dir))
      X == HitPoint(el.surf, XYZ(e.b.pos), XYZ(e.b.dir))
      q == XYZ(e.a.dir)
      F == FrameAt(el.surf, X)
      g == Groove(F[1], F[2], el.ca, el.sa)
      t == Disp(F[1], F[2], el.ca, el.sa)
      n == F[3]
      L == LocalP(el.surf.M, X)
      y == IF el.surf.shape = "plane" THEN Mul(L[2], Norm(AY(el.surf.M))) ELSE L[2]
      z == Mul(L[3], Norm(AZ(el.surf.M)))
      d == Mul(el.d0, Add(One, Add(Mul(el.da, y), Mul(el.db, z))))
      x == Mul(SignOf(el.kind, Dot(p, t)), MLD(e.m, e.b.en, d))
      ex == Excess(p, g, t, x)
      signsure == el.kind = "flat" \/ Gt(Abs(Dot(p, t)), E9)
      mod == Add(el.bc, Mul(el.bm, y))
      bl == Sub(e.blaze, mod)
      cs == BlazeCS(p, g, t, n)
      k == el.kind \o " "
  IN  << <<"energy unchanged", e.a.en = e.b.en>>,
         <<"order of the table is recorded", e.m = e.sel.m>>,
         <<"order table sees the photon's energy", e.sel.en = e.b.en>>,
         <<"order table sees the blaze angle", e.sel.blaze = e.blaze>>,
         <<"blaze angle", Near(Cos(bl), cs[1], E7) /\ Near(Sin(bl), cs[2], E7)>>,
         <<"direction is a unit vector", IsUnit(q, E9) /\ e.a.dir[4] = Zero>> >>
      \o (IF ~signsure THEN << <<k \o "order on one side or the other", Gt(ex, Opp(E8)) \/ Near(Abs(Sub(Dot(q, t), Dot(p, t))), Abs(x), E7)>> >>
          ELSE IF Gt(ex, E8) THEN << <<"orders that cannot propagate are lost", e.a.prob = Zero>> >>
          ELSE IF Lt(ex, Opp(E8))
          THEN << <<k \o "component along the grooves", Near(Dot(q, g), Dot(p, g), E9)>>,
                  <<k \o "component across the grooves", Near(Dot(q, t), Add(Dot(p, t), x), E7)>>,
                  <<k \o "side of the surface", IF el.refl THEN Dot(q, n)[1] = -Dot(p, n)[1] ELSE Dot(q, n)[1] = Dot(p, n)[1]>>,
                  <<"survival factor of the order table", Near(e.a.prob, Mul(e.b.prob, e.sel.p), E12)>> >>
               \o (IF e.m = Zero /\ ~el.refl THEN << <<"order zero passes straight", VNear(q, p, E9)>> >> ELSE <<>>)
          ELSE <<>>)
TraceStep(s, e) ==
  CASE e.k = "grating" -> [st |-> e, ck |-> <<>>]
    [] e.k = "photon" -> [st |-> s, ck |-> IF Sure(s, e.b) /\ Hits(s, e.b) THEN PhotonCk(s, e) ELSE <<>>]
    [] e.k = "reach" -> [st |-> s, ck |->
          IF ~Sure(s, e.b) THEN <<>>
          ELSE << <<"bent grating is hit where it is", e.hit = Hits(s, e.b)>> >>
               \o (IF Hits(s, e.b) /\ e.hit
                   THEN << <<"bent grating: hit position", VNear(XYZ(e.a.pos), HitPoint(s.surf, XYZ(e.b.pos), XYZ(e.b.dir)), E6)>> >>
                   ELSE <<>>)]
    (* chirp: where rays through other parts of the grating end relative to the one through its centre *)
    [] e.k = "focus" -> [st |-> s, ck |-> << <<e.what, Near(e.x, e.x0, e.tol)>> >>]
=============================================================================
