---------------------------- MODULE CatStackTrace ----------------------------
(*  stack:  surf, ca, sa (groove angle of the membrane), d, q, l1, l2, layers, bc, bm *)
(*  photon: b, a rows, m, m1, ang: recorded order, bar order, scatter angle (m, m1 of *)
(*          the photon before where no such layer); blaze; sel, sel1: what the order  *)
(*          tables were given and returned; cell of the transmission table            *)
(*  miss:   photon that does not hit                                                  *)
(*  bars:   orders in the fine grating of all photons; its table never gives zero     *)
(*  meet:   orders drawn for the fine grating, probability after it (1 between bars)  *)
(*  broad:  scatter angles and energies of all photons                                *)
(*  perturb: how, w, blaze asked for and blaze looked up                              *)
(*  holder: facet (or none), probabilities before and after                           *)
(*  tilts:  blaze offset per grating and misalignment matrix of its facet             *)
(* State: the stack; lower and upper share of bars seen                               *)
EXTENDS CatStack, TraceBase
TraceSt0 == [k |-> "none"]
Force(f) == SubSeq(f, 1, Len(f))
Has(s, lay) == \E i \in DOMAIN s.layers : s.layers[i] = lay
Frame(s) == LET f == FrameAt(s.surf, V0) IN << Groove(f[1], f[2], s.ca, s.sa), Disp(f[1], f[2], s.ca, s.sa), f[3] >>
LocalY(s, X) == Mul(LocalP(s.surf.M, X)[2], Norm(AY(s.surf.M)))
PhotonCk(s, e) ==
    LET F == Frame(s)
        p == Unit(XYZ(e.b.dir))
        q == XYZ(e.a.dir)
        X == HitPoint(s.surf, XYZ(e.b.pos), XYZ(e.b.dir))
        ch(bar) == [m |-> IF Has(s, "membrane") THEN e.sel.m ELSE e.m, f |-> IF Has(s, "membrane") THEN e.sel.p ELSE One,
                    m1 |-> IF Has(s, "fine") THEN e.sel1.m ELSE Zero, f1 |-> IF Has(s, "fine") THEN e.sel1.p ELSE One,
                    bar |-> bar, cell |-> e.cell]
        ph0 == [p |-> p, prob |-> << e.b.prob, e.b.prob >>, m |-> e.m0]
        res(bar) == Walk(s.layers, 1, s, F, e.b.en, ph0, ch(bar))
        o == res(FALSE)
        t == res(TRUE)
        sure == Finite3(o.p) /\ Finite3(t.p)
        shift == Add(IF Has(s, "membrane") THEN Abs(MLD(e.sel.m, e.b.en, s.d)) ELSE Zero,
                     IF Has(s, "fine") THEN Abs(MLD(e.sel1.m, e.b.en, s.l1.period)) ELSE Zero)
        tol(x) == Add(Mul(I(2), E9), Div(Mul(shift, E7), Abs(Dot(x, F[3]))))
        Dir(x) == IF Has(s, "broaden") THEN Near(Norm(Cross(q, x)), Abs(Sin(e.ang)), Add(tol(x), Mul(Abs(e.ang), E7))) /\ Gt(Dot(q, x), Zero)
                  ELSE VNear(q, x, tol(x))
        Prob(r) == Ge(e.a.prob, Sub(r.prob[1], Add(E10, Mul(E5, r.prob[1])))) /\ Le(e.a.prob, Add(r.prob[2], Add(E10, Mul(E5, r.prob[2]))))
        isbar == Has(s, "fine") /\ e.m1 = Zero /\ (Has(s, "fine") => e.sel1.m # Zero)
        may == Has(s, "fine") /\ e.m1 = Zero
        k == s.name \o ": "
    IN << <<k \o "energy and position stay", e.a.en = e.b.en /\ VClose(XYZ(e.a.pos), X, E7) /\ e.a.pos[4] = One>>,
          <<k \o "direction is a unit vector", IsUnit(q, E9) /\ e.a.dir[4] = Zero>>,
          <<k \o "probability does not grow", Le(e.a.prob, e.b.prob)>>,
          <<k \o "order of the membrane is the one drawn", e.m = IF Has(s, "membrane") THEN e.sel.m ELSE e.m0>>,
          <<k \o "bar order is the one drawn or zero", Has(s, "fine") => (e.m1 = Zero \/ e.m1 = e.sel1.m)>> >> \o
       (IF Has(s, "membrane") /\ s.first
        THEN LET cs == BlazeCS(p, F[1], F[2], F[3])
                 bl == Sub(e.blaze, Add(s.bc, Mul(s.bm, LocalY(s, X))))
             IN << <<k \o "blaze angle with the tilt of the bars", Near(Cos(bl), cs[1], E7) /\ Near(Sin(bl), cs[2], E7)>>,
                   <<k \o "order table sees the blaze angle", e.sel.blaze = e.blaze /\ e.sel.en = e.b.en>> >> ELSE << >>) \o
       (IF ~sure THEN << >>
        ELSE IF isbar THEN << <<k \o "passes through a bar without a turn", Dir(t.p)>>,
                              <<k \o "attenuated by the bar and the other layers", Prob(t)>> >>
        ELSE IF may THEN << <<k \o "between the bars or through one", (Dir(t.p) /\ Prob(t)) \/ (Dir(o.p) /\ Prob(o))>> >>
        ELSE << <<k \o "direction given by all layers", Dir(o.p)>>,
                <<k \o "probability is the product over all layers", Prob(o)>> >>)
Count(a) == Cardinality({ i \in DOMAIN a : a[i] = 0 })
TraceStep(s, e) ==
  CASE e.k = "stack" -> [st |-> e, ck |-> << <<"dimensions make sense", Good(e.l1) /\ Good(e.l2)>> >>]
    [] e.k = "photon" -> [st |-> s, ck |-> IF Robust(s.surf, XYZ(e.b.pos), XYZ(e.b.dir)) THEN PhotonCk(s, e) ELSE << >>]
    [] e.k = "miss" -> [st |-> s, ck |-> << <<"rays that miss are left alone", e.a = e.b>> >>]
    [] e.k = "bars" -> [st |-> s, ck |-> << <<"share of the bars is the share of the area they cover",
                                              Plausible(Count(e.m1), Len(e.m1), BarShare(s.l1))>> >>]
    [] e.k = "meet" ->
        LET bar == Force([i \in DOMAIN e.prob |-> Lt(e.prob[i], One)])
            Ok(S) == Plausible(Cardinality({ i \in S : bar[i] }), Cardinality(S), BarShare(s.l1))
            all == DOMAIN e.prob
        IN [st |-> s, ck |-> IF Len(e.drawn) # Len(e.prob) THEN << <<"every photon that hits gets an order", FALSE>> >> ELSE
            << <<"bars are met with the share of the area, order zero or not",
                 Ok({ i \in all : e.drawn[i] = 0 }) /\ Ok({ i \in all : e.drawn[i] # 0 })>>,
               <<"bars are met wherever the photon is in the list",
                 Ok({ i \in all : e.even[i] }) /\ Ok({ i \in all : 2 * i > Len(e.prob) })>> >>]
    [] e.k = "broad" ->
        LET z == Force([i \in DOMAIN e.ang |-> Div(e.ang[i], BroadenSigma(s.l2, e.en[i]))])
        IN [st |-> s, ck |-> << <<"broadening has the width of the opening's diffraction", StdNormal(z)>> >>]
    [] e.k = "perturb" ->
        LET z == Force([i \in DOMAIN e.seen |-> Div(Sub(e.seen[i], e.blaze[i]), e.w)])
        IN [st |-> s, ck |-> IF e.how = "wavy" THEN << <<"wavy bars: normal distribution of the blaze angle", StdNormal(z)>> >>
                             ELSE IF e.how = "tophat" THEN << <<"top hat: uniform distribution of the blaze angle",
                                  Uniform(Force([i \in DOMAIN z |-> Add(z[i], Q(1, 2))]))>> >>
                             ELSE << <<"no perturbation without a width", \A i \in DOMAIN e.seen : Near(e.seen[i], e.blaze[i], E7)>> >>]
    [] e.k = "holder" -> [st |-> s, ck |->
        << <<"holder absorbs what passes no facet", Len(e.b) = Len(e.a) /\ \A i \in DOMAIN e.b :
              e.a[i] = IF ~e.has \/ e.facet[i] < 0 THEN Zero ELSE e.b[i]>> >>]
    [] e.k = "tilts" ->
        [st |-> s, ck |->
        << <<"one tilt for each grating", Len(e.t) = e.n /\ Len(e.M) = e.n>>,
           <<"tilts of the bars are uniform up to the maximum", e.max = Zero \/ Uniform(Force([i \in DOMAIN e.t |-> Div(Add(e.t[i], e.max), Mul(I(2), e.max))]))>>,
           <<"no tilt without a maximum", e.max = Zero => \A i \in DOMAIN e.t : e.t[i] = Zero>>,
           <<"facet is turned back by the tilt of its bars", e.noise \/ \A i \in DOMAIN e.t :
               LET R(v) == Rodrigues(v, << Zero, One, Zero >>, Cos(e.t[i]), Opp(Sin(e.t[i])))
               IN \A j \in 1..3 : /\ VNear(Col3(e.M[i], j), R([a \in 1..3 |-> IF a = j THEN One ELSE Zero]), E9)
                                  /\ e.M[i][j][4] = Zero>>,
           <<"misalignment is a rigid motion", \A i \in DOMAIN e.M : \A j \in 1..3 : \A h \in 1..3 :
               Near(Dot(Col3(e.M[i], j), Col3(e.M[i], h)), IF j = h THEN One ELSE Zero, E8)>>,
           <<"grating itself is turned back, about its own centre", e.noise \/ \A i \in DOMAIN e.t :
               LET R(v) == AppVec(e.base, Rodrigues(AppVec(e.inv, v), << Zero, One, Zero >>, Cos(e.t[i]), Opp(Sin(e.t[i]))))
               IN /\ \A j \in 1..3 : VClose(Col3(e.after[i], j), R(Col3(e.before[i], j)), E8)
                  /\ VClose(Col3(e.after[i], 4), Col3(e.before[i], 4), E8)>> >>]
=============================================================================
