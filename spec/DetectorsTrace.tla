--------------------------- MODULE DetectorsTrace ---------------------------
(*  det:    a detector: kind "flat"/"curved", surf, w (pixel size), n (pixels  *)
(*          along both axes), warned (the user was told that it does not fit)  *)
(*  hit:    b, a rows; dx, dy position, px, py pixel coordinates               *)
(*  ccd:    a charge resolution model: tab = [en, w, fwhm], surf               *)
(*  width:  sig_ccd(en) = sig                                                  *)
(*  cdf:    p = cdf(x, loc)                                                    *)
(*  inter:  [lo, hi] = interval(alpha, loc)                                    *)
(*  redist: energies en and detected energies de of photons that hit (reach    *)
(*          TRUE) and of those that did not                                    *)
EXTENDS Detectors, TraceBase
TraceSt0 == [kind |-> "none"]
HitCk(s, e) ==
  LET M == s.surf.M
      X == HitPoint(s.surf, XYZ(e.b.pos), XYZ(e.b.dir))
      k == s.kind \o " detector: "
  IN << <<k \o "hit position recorded", VClose(XYZ(e.a.pos), X, E7)>>,
        <<k \o "energy, direction and probability unchanged", e.a.en = e.b.en /\ e.a.dir = e.b.dir /\ e.a.prob = e.b.prob>> >>
     \o (IF s.kind = "flat"
         THEN LET c == FlatPos(M, X) IN
              << <<k \o "position along the own axes", Close(e.dx, c[1], E7) /\ Close(e.dy, c[2], E7)>>,
                 <<k \o "pixel = position / pixel size, corner pixel at 0",
                   /\ Close(Mul(e.px, s.w), Mul(FlatPix(c[1], s.n[1], s.w), s.w), E7)
                   /\ Close(Mul(e.py, s.w), Mul(FlatPix(c[2], s.n[2], s.w), s.w), E7)>> >>
         ELSE << <<k \o "position along arc and axis", ArcPhiOK(M, X, e.dx) /\ Close(e.dy, AxPos(M, X), E7)>>,
                 <<k \o "pixel = arc length / pixel size",
                   /\ Close(Mul(e.px, s.w), Mul(ArcPix(M, e.dx, s.w), s.w), E7)
                   /\ Close(Mul(e.py, s.w), AxPos(M, X), E7)>> >>)
Dev(s, e, i) == Div(Sub(e.de[i], e.en[i]), Sigma(s.tab, e.en[i]))
TraceStep(s, e) ==
  CASE e.k = "det" -> [st |-> e, ck |->
          IF e.kind = "curved" THEN <<>> ELSE
          LET len(i) == Mul(I(2), Norm(IF i = 1 THEN AY(e.surf.M) ELSE AZ(e.surf.M))) IN
          << <<"number of pixels", NPixOK(e.n[1], len(1), e.w) /\ NPixOK(e.n[2], len(2), e.w)>>,
             <<"told if the size is not a number of pixels",
               IF e.ignore THEN e.warned = <<>>
               ELSE /\ \A i \in 1..2 : NotInteger(e.n[i], len(i), e.w) => \E j \in DOMAIN e.warned : e.warned[j] = i
                    /\ \A i \in 1..2 : IsInteger(e.n[i], len(i), e.w) => ~(\E j \in DOMAIN e.warned : e.warned[j] = i)>> >>]
    [] e.k = "hit" -> [st |-> s, ck |->
          IF Robust(s.surf, XYZ(e.b.pos), XYZ(e.b.dir)) /\ Hit(s.surf, XYZ(e.b.pos), XYZ(e.b.dir)) THEN HitCk(s, e) ELSE <<>>]
    [] e.k = "ccd" -> [st |-> e, ck |-> <<>>]
    [] e.k = "width" -> [st |-> s, ck |-> << <<"tabulated width at that energy", Close(e.sig, Sigma(s.tab, e.en), E9)>> >>]
    [] e.k = "cdf" -> [st |-> s, ck |-> << <<"cumulated response", Near(e.p, Phi(Div(Sub(e.x, e.loc), Sigma(s.tab, e.loc))), E7)>> >>]
    [] e.k = "inter" -> [st |-> s, ck |->
          LET z == Div(Sub(e.hi, e.loc), Sigma(s.tab, e.loc)) IN
          << <<"interval is symmetric", Near(Add(e.lo, e.hi), Mul(I(2), e.loc), E9) /\ Ge(e.hi, e.lo)>>,
             <<"interval contains the requested fraction", Near(Sub(Phi(z), Phi(Opp(z))), e.alpha, E7)>> >>]
    [] e.k = "redist" -> [st |-> s, ck |->
          << <<"only hit photons get a detected energy", \A i \in DOMAIN e.en : e.reach[i] = Finite(e.de[i])>>,
             <<"true energy unchanged", e.en = e.en1>>,
             <<"detected energy spread with the tabulated width around the true one",
               LET hit == SelectSeq([i \in DOMAIN e.en |-> i], LAMBDA i : e.reach[i]) IN
               StdNormal([j \in DOMAIN hit |-> Dev(s, e, hit[j])])>> >>]
=============================================================================
