------------------------------ MODULE CatStack ------------------------------
(***************************************************************************)
(* Fabricated critical-angle transmission gratings.  A photon meets, in    *)
(* one place: the membrane (a grating, see Gratings), the quality factor,  *)
(* the fine support bars, which are a grating across the first one where   *)
(* the photon passes between them and an absorber where it does not, the   *)
(* coarse support, which covers and shadows part of the surface, and the   *)
(* diffraction at the coarse support, which scatters it a little.          *)
(* Lengths are in mm, energies in keV.                                     *)
(* A photon is [p |-> direction, prob |-> <<lower, upper>>, m |-> order],   *)
(* with limits for the probability because the transmission of the bars is *)
(* tabulated.  A layer changes it given a choice c = [m, m1, f, f1, bar]:   *)
(* orders in the two gratings, the survival factors of their order tables, *)
(* and whether the photon goes through a bar.                              *)
(***************************************************************************)
EXTENDS Gratings, Stats
QFactor(ratio, m) == ExpN(Mul(Sq(Mul(Mul(I(2), Pi), ratio)), Sq(m)))           \* ratio = sigma / d
BarShare(dims) == Div(dims.width, dims.period)
(* transmission t of 1 micrometer -> of the depth given in mm *)
Through(t, depth) == IF Lt(t, Mul(E9, Q(1, 100))) THEN Zero ELSE IF t = One THEN One ELSE ExpN(Mul(Mul(I(1000), depth), Opp(Ln(t))))
(* transmission of a bar for an energy in a cell of the transmission table *)
BarCell(cell, depth) == << Through(cell.t0, depth), Through(cell.t1, depth) >>
Free(dims) == Sub(dims.period, dims.width)
(* cell = hexagon of this height *)
HexArea(p) == Mul(Sq(p), Div(Sqrt(I(3)), I(2)))
CoarseOpen(dims, sinang) == Sub(Sq(Div(Free(dims), dims.period)),
                                Div(Mul(Mul(dims.depth, Free(dims)), sinang), HexArea(dims.period)))
ArcSin(x) == Add(x, Add(Div(Mul(x, Sq(x)), I(6)), Mul(Q(3, 40), Mul(x, Sq(Sq(x))))))   \* small x
BroadenSigma(dims, en) == Mul(Q(488, 1000), ArcSin(Div(HC, Mul(en, Free(dims)))))
Good(dims) == Lt(dims.width, dims.period)
(* grating of kind CAT with unit vectors g, t, n *)
CatX(p, t, m, en, d) == Mul(SignOf("cat", Dot(p, t)), MLD(m, en, d))
CatDir(p, g, t, n, m, en, d) == Diffract(p, g, t, n, CatX(p, t, m, en, d), FALSE)
Exists(p, g, t, m, en, d) == Lt(Excess(p, g, t, CatX(p, t, m, en, d)), Opp(E8))
SideSure(p, t, m) == m = Zero \/ Gt(Abs(Dot(p, t)), E9)
Less(pr, f) == << Mul(pr[1], f), Mul(pr[2], f) >>
(* frame of the stack: <<g, t, n>>, grooves of the membrane, dispersion, normal; the fine bars run along t *)
Apply(layer, el, F, en, ph, c) ==
    CASE layer = "membrane" -> [p |-> CatDir(ph.p, F[1], F[2], F[3], c.m, en, el.d), prob |-> Less(ph.prob, c.f), m |-> c.m]
      [] layer = "quality" -> [ph EXCEPT !.prob = Less(@, QFactor(el.q, ph.m))]
      [] layer = "fine" ->
            IF c.bar THEN LET w == BarCell(c.cell, el.l1.depth)
                          IN [ph EXCEPT !.prob = << Mul(@[1], Min2(w[1], w[2])), Mul(@[2], Max2(w[1], w[2])) >>]
            ELSE [ph EXCEPT !.p = CatDir(@, VNeg(F[2]), F[1], F[3], c.m1, en, el.l1.period), !.prob = Less(@, c.f1)]
      [] layer = "coarse" -> [ph EXCEPT !.prob = Less(@, CoarseOpen(el.l2, Norm(Cross(ph.p, F[3]))))]
      [] layer = "broaden" -> ph
Sure(layer, el, F, en, ph, c) ==
    CASE layer = "membrane" -> SideSure(ph.p, F[2], c.m) /\ Exists(ph.p, F[1], F[2], c.m, en, el.d)
      [] layer = "fine" -> c.bar \/ (SideSure(ph.p, F[1], c.m1) /\ Exists(ph.p, F[2], F[1], c.m1, en, el.l1.period))
      [] OTHER -> TRUE
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(layers, i, el, F, en, ph, c) ==
    IF i > Len(layers) THEN ph
    ELSE IF ~Sure(layers[i], el, F, en, ph, c) THEN [ph EXCEPT !.p = << NaN, NaN, NaN >>]
    ELSE Walk(layers, i + 1, el, F, en, Apply(layers[i], el, F, en, ph, c), c)
=============================================================================
