---------------------------- MODULE AnalysisTrace ----------------------------
(*  aeff:   effective area per order: ph, orders, n sent, A, out               *)
(*  frac:   detected fraction per label: ph, orders, out                        *)
(*  power:  resolving power per order from a list: ph, orders, zero (given or   *)
(*          NaN), out = [r, pos, sd]; failed = the code refused                 *)
(*  robust: several lists, worst case per order                                 *)
(*  report: combined report: ph (use = good for area), res (use = good for R)   *)
(*  avg:    average over orders; table: average with tabulated weights          *)
(*  sector: cosine and sine of angle and centre, cosine of the opening, inside  *)
(*  focus:  rays, orientation, found position x, nearby positions, unchanged    *)
(*  proj:   points projected on a plane;  mono: helper simulation               *)
EXTENDS Analysis, TraceBase
TraceSt0 == [none |-> TRUE]
Zeros(ph) == Mean(Line(OfOrder(ph, 0)))
ZeroOK(e) == ~IsNaN(e.zero) \/ (Count(e.ph, 0) >= Few /\ ClipSafe(OfOrder(e.ph, 0), 5))
Used(e) == IF IsNaN(e.zero) THEN Zeros(e.ph) ELSE e.zero
PowerCk(e) ==
    IF IsNaN(e.zero) /\ Count(e.ph, 0) < Few THEN << <<"too few photons to find the zero order: refused", e.failed>> >>
    ELSE IF ~ZeroOK(e) THEN <<>>
    ELSE << <<"not refused", ~e.failed>> >> \o
         (IF e.failed THEN <<>> ELSE LET z == Used(e) IN
          << <<"line position and width from the photons of that order",
               \A k \in DOMAIN e.orders : LineSafe(e.ph, e.orders[k]) => LineOK(e.ph, e.orders[k], e.pos[k], e.sd[k])>>,
             <<"resolving power is position over full width, undefined for few photons",
               \A k \in DOMAIN e.orders : LineSafe(e.ph, e.orders[k]) =>
                  PowerOK(e.r[k], e.pos[k], e.sd[k], z, Count(e.ph, e.orders[k]))>> >>)
(* worst of several lists: smallest resolving power; judged if every one is defined *)
Lists(e) == DOMAIN e.lists
RobOf(e, j, o) == LET x == Line(OfOrder(e.lists[j], o)) IN [pos |-> Mean(x), sd |-> Std(x), r |-> Resolve(Mean(x), Std(x), e.zeros[j])]
RobustOK(e, k) ==
    LET o == e.orders[k] IN
    (\A j \in Lists(e) : Count(e.lists[j], o) >= Few /\ LineSafe(e.lists[j], o)) =>
      LET rr == Force([j \in 1..Len(e.lists) |-> RobOf(e, j, o)]) IN
      /\ \A j \in Lists(e) : Le(e.r[k], Add(rr[j].r, Mul(E6, Add(One, rr[j].r))))
      /\ \E j \in Lists(e) : Close(e.r[k], rr[j].r, E6) /\ Close(e.pos[k], rr[j].pos, E7) /\ Near(e.sd[k], rr[j].sd, Mul(E6, rr[j].sd))
(* report *)
RepCk(e) ==
  LET ord == e.orders
      areas == Force([k \in 1..Len(ord) |-> Aeff(e.ph, ord[k], e.n, e.A)])
      disp == Where(Len(ord), LAMBDA k : ord[k] # 0)
      few0 == IsNaN(e.zero) /\ Count(e.res, 0) < Few
      safe == (IsNaN(e.zero) /\ ~few0 => ClipSafe(OfOrder(e.res, 0), 5)) /\ \A k \in DOMAIN ord : LineSafe(e.res, ord[k])
      zero == IF IsNaN(e.zero) THEN Zeros(e.res) ELSE e.zero
  IN << <<"report: area per order", \A k \in DOMAIN ord : Close(e.aeff[k], areas[k], E9)>>,
        <<"report: area of the dispersed orders and of order zero",
          /\ Close(e.grat, SumSeq(At(areas, disp)), E9)
          /\ Close(Add(e.grat, e.zeroth), SumSeq(areas), E9)>>,
        <<"report: resolving power from surviving photons only",
          IF few0 THEN \A k \in DOMAIN ord : IsNaN(e.r[k])
          ELSE safe => \A k \in DOMAIN ord :
               IF Count(e.res, ord[k]) < Few THEN IsNaN(e.r[k])
               ELSE LET x == Line(OfOrder(e.res, ord[k])) IN Close(e.r[k], Resolve(Mean(x), Std(x), zero), E7)>>,
        <<"report: averaged resolving power is weighted by area",
          WAvgOK(e.rgrat, At(e.r, disp), At(areas, disp))>>,
        <<"report: photons unchanged", e.same>> >>
(* tabulated weights *)
Weight(e, o, en) == LET i == CHOOSE i \in DOMAIN e.tab.ord : e.tab.ord[i] = o IN LinInterp(e.tab.en, e.tab.p[i], en)
(* sectors; all angles by cosine and sine *)
CosTo(e, s) == Add(Mul(e.c, e.c0), Mul(s, Mul(e.s, e.s0)))      \* s = +1: centre, -1: mirrored centre
InSector(e) == Ge(CosTo(e, One), e.cm) \/ Ge(CosTo(e, I(-1)), e.cm)
SectorSafe(e) == ~Near(CosTo(e, One), e.cm, E9) /\ ~Near(CosTo(e, I(-1)), e.cm, E9)
Spread(e, x) == IF e.two THEN Spread2(e.rays, e.R, x) ELSE Spread1(e.rays, e.R, x)
TraceStep(s, e) ==
  CASE e.k = "aeff" -> [st |-> s, ck |->
          << <<"effective area is the summed probability over all photons sent", Len(e.out) = Len(e.orders)
               /\ \A k \in DOMAIN e.orders : Close(e.out[k], Aeff(e.ph, e.orders[k], e.n, e.A), E9)>> >>]
    [] e.k = "frac" -> [st |-> s, ck |->
          << <<"detected fraction per label",
               \A k \in DOMAIN e.orders : Close(e.out[k], Aeff(e.ph, e.orders[k], Len(e.ph.prob), One), E9)>> >>]
    [] e.k = "power" -> [st |-> s, ck |-> PowerCk(e)]
    [] e.k = "traced" -> [st |-> s, ck |->
          LET ord == e.orders
              safe == LineSafe(e.ph, e.zero) /\ \A k \in DOMAIN ord : LineSafe(e.ph, ord[k])
              zero == Mean(Line(OfOrder(e.ph, e.zero)))
          IN << <<"traced order by order: width and resolving power of surviving photons", safe => \A k \in DOMAIN ord :
                  Len(OfOrder(e.ph, ord[k])) > 1 /\ Len(OfOrder(e.ph, e.zero)) > 1 =>
                   LET x == Line(OfOrder(e.ph, ord[k]))  w == Mul(Std(x), FwhmSigma) IN
                   /\ Near(e.fwhm[k], w, Mul(E7, w))
                   /\ Near(Mul(e.r[k], w), Abs(Sub(Mean(x), zero)), E6)>>,
                <<"photons sent in are not changed", e.same>> >>]
    [] e.k = "robust" -> [st |-> s, ck |-> << <<"worst case of several lists", \A k \in DOMAIN e.orders : RobustOK(e, k)>> >>]
    [] e.k = "report" -> [st |-> s, ck |-> RepCk(e)]
    [] e.k = "avg" -> [st |-> s, ck |->
          << <<"average weighted with effective area", WAvgOK(e.out, e.r, e.a)>>,
             <<"areas add up", Close(e.tot, SumSeq(e.a), E9)>> >>]
    [] e.k = "table" -> [st |-> s, ck |->
          << <<"average weighted with the tabulated share", \A m \in DOMAIN e.en :
               WAvgOK(e.out[m], Force([k \in 1..Len(e.orders) |-> e.data[k][m]]),
                                Force([k \in 1..Len(e.orders) |-> Weight(e, e.orders[k], e.en[m])]))>> >>]
    [] e.k = "sector" -> [st |-> s, ck |->
          IF SectorSafe(e) THEN << <<"inside one of the two sectors", e.in = InSector(e)>> >> ELSE <<>>]
    [] e.k = "focus" -> [st |-> s, ck |->
          LET best == Spread(e, e.x) IN
          << <<"no nearby position is sharper", \A j \in DOMAIN e.near :
               Ge(Spread(e, e.near[j]), Sub(best, Add(E9, Mul(E6, best))))>>,
             <<"reported width is the width there", Close(e.fun, best, E7)>>,
             <<"input photons not changed", e.before = e.after>> >>]
    [] e.k = "proj" -> [st |-> s, ck |->
          << <<"projected along the normal, from the centre of the plane",
               \A i \in DOMAIN e.x : /\ Close(e.x[i], Dot(VSub(XYZ(e.pos[i]), Ctr(e.M)), Unit(AY(e.M))), E9)
                                     /\ Close(e.y[i], Dot(VSub(XYZ(e.pos[i]), Ctr(e.M)), Unit(AZ(e.M))), E9)>>,
             <<"plane keeps its column names", e.names = e.names1>> >>]
    [] e.k = "polar" -> [st |-> s, ck |->
          << <<"radius and angle of each facet", \A i \in DOMAIN e.x :
               /\ Close(Mul(e.r[i], Cos(e.phi[i])), e.x[i], E9) /\ Close(Mul(e.r[i], Sin(e.phi[i])), e.y[i], E9)
               /\ Ge(e.r[i], Zero)>>,
             <<"each facet once, with its number", e.ids = e.want>> >>]
    [] e.k = "mono" -> [st |-> s, ck |->
          << <<"as many photons as asked, all at that energy", e.n = e.asked
               /\ \A i \in DOMAIN e.en : Close(e.en[i], e.energy, E9)>>,
             <<"along the axis", \A i \in DOMAIN e.dir : VNear(Unit(XYZ(e.dir[i])), e.axis, E9)>> >>]
=============================================================================
