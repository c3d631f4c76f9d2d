----------------------------- MODULE AreasTrace -----------------------------
(*  scene:  optical axes (name, x0), chips, distance f, period d (Angstrom), tables of filters *)
(*  aim:    one channel and order, wavelengths aimed at the ends of chips -> on a chip or not     *)
(*  arf:    edges asked for, channels, order -> rows of the response, header                    *)
(*  sum:    responses of single channels and of all of them together                            *)
(*  mirror: tabulated area of one order at its own knots                                        *)
(*  name:   file name; readme: names in it                                                      *)
(*  rmf0:   matrix of the zeroth order                                                          *)
(*  zero:   photon on an optical axis: place on the detectors and expected zeroth order         *)
(*  grid:   one simulation: photons per aperture and order -> areas and resolving powers        *)
(*  regular, turned, kept: regular grids of gratings                                            *)
(*  facets: row of the table -> matrix and period of the grating                                *)
EXTENDS Areas, TraceBase
TraceSt0 == [k |-> "none"]
Force(f) == SubSeq(f, 1, Len(f))
Rel(a, b, eps) == Near(a, b, Add(E12, Mul(eps, Abs(b))))
SetOf(q) == { q[i] : i \in DOMAIN q }
(* energies asked for, ascending *)
Asked(e) == LET n == Len(e.edges) IN
            Force([i \in 1..n |-> IF e.wave THEN Wave(e.edges[IF e.up THEN n + 1 - i ELSE i]) ELSE e.edges[IF e.up THEN i ELSE n + 1 - i]])
AxisOf(s, c) == LET i == CHOOSE i \in DOMAIN s.axes : s.axes[i].name = c IN s.axes[i].x0
CountOK(s, e, en, on) ==
    LET S == { i \in DOMAIN s.axes : s.axes[i].name \in SetOf(e.chans) }
        sn == SinRay(e.order, Wave(en), s.d)
        V == [i \in S |-> OnAny(Force([j \in 1..Len(s.chips) |-> Seen(s.chips[j], s.axes[i].x0, s.f)]), sn, E8)]
        low == Cardinality({ i \in S : V[i] = "on" })
        high == Cardinality({ i \in S : V[i] # "off" })
    IN IsInt(on) /\ Between(on, I(low), I(high))
ArfCk(s, e) ==
    LET en == Asked(e)
        n == Len(en) - 1
        R == DOMAIN e.lo
        M == Force([i \in 1..n |-> MidOf(en[i], en[i + 1])])
    IN << <<"bins of a response cover what was asked for, energies ascending", Len(e.lo) = n /\ \A i \in R : Rel(e.lo[i], en[i], E8) /\ Rel(e.hi[i], en[i + 1], E8)>>,
          <<"wavelengths of a bin are those of its energies", \A i \in R : Rel(e.blo[i], Wave(e.hi[i]), E8) /\ Rel(e.bhi[i], Wave(e.lo[i]), E8)>>,
          <<"response is the product of its parts", \A i \in R : Rel(e.spec[i], Mul(e.mir[i], Mul(e.fil[i], e.on[i])), E9)>>,
          <<"transmission of all filters at the energy of the bin", \A i \in R : Rel(e.fil[i], FilterProduct(s.filters, M[i], Len(s.filters)), E7)>>,
          <<"mirror area of the order at the energy of the bin", e.quad => \A i \in R :
              LET w == Wave(M[i])  y == MirrorQuad(e.c, e.w0, e.w1, w) IN Near(e.mir[i], y, Add(E6, Mul(E6, Abs(y))))>>,
          <<"areas are never negative", \A i \in R : Ge(e.mir[i], Zero) /\ Ge(e.spec[i], Zero)>>,
          <<"counts the channels that see the bin on a chip", \A i \in R : CountOK(s, e, M[i], e.on[i])>>,
          <<"area is an area", e.unit = "cm2">>,
          <<"header names the channels and the order", e.flags = Flags(Force([i \in 1..Len(s.axes) |-> s.axes[i].name]), SetOf(e.chans)) /\ e.horder = I(e.order)>> >>
RowSum(e, r) == SumSeq(Force([i \in 1..Len(e.one) |-> e.one[i][r]]))
(* Gaussian of the zeroth order *)
Entry(e, r, k) == LET mid == MidOf(e.edges[r], e.edges[r + 1])
                      sg == Div(LinInterp(e.ten, e.tfw, mid), e.fwhm)
                      Z(x) == Phi(Div(Sub(x, mid), sg))
                  IN Sub(Z(e.edges[k + 1]), Z(e.edges[k]))
EntryOK(v, p, thr) == IF Gt(p, Add(thr, E9)) THEN Near(v, p, E8) ELSE IF Lt(p, Sub(thr, E9)) THEN v = Zero ELSE v = Zero \/ Near(v, p, E8)
GridCk(e) ==
    LET A == DOMAIN e.aeff                 \* apertures
        O == DOMAIN e.orders
        W(o) == Weighted(Force([a \in 1..Len(e.aeff) |-> e.r[a][o]]), Force([a \in 1..Len(e.aeff) |-> e.aeff[a][o]]))
        SA(o) == SumSeq(Force([a \in 1..Len(e.aeff) |-> e.aeff[a][o]]))
        ND == { o \in O : e.orders[o] # 0 }
        RW == Force([o \in 1..Len(e.orders) |-> e.r4[o]])
        wsum == SumOf(Force([o \in 1..Len(e.orders) |-> e.aeff4[o]]), { o \in ND : ~IsNaN(e.r4[o]) })
        Eqq(a, b) == IF IsNaN(b) THEN TRUE ELSE Rel(a, b, E8)
    IN << <<"grid: every simulation once, at its own energy", e.found = 1 /\ Rel(e.wave, Wave(e.en), E8)>>,
          <<"grid: area of an aperture and order counts its photons on chips", \A a \in A : \A o \in O :
               Rel(e.aeff[a][o], Div(Mul(e.geo, e.seen[a][o]), e.nph), E8)>>,
          <<"grid: resolving power from the aperture's own zeroth order", \A a \in A : \A o \in O :
               IF e.many[a][o] THEN Rel(Mul(e.r[a][o], Mul(e.std[a][o], I(2))), Mul(I(2), Div(Abs(Sub(e.mean[a][o], e.zero[a])), Q(23548, 10000))), E6)
               ELSE IsNaN(e.r[a][o])>>,
          <<"grid: areas of all apertures add up", \A o \in O : Rel(e.aeff4[o], SA(o), E8)>>,
          <<"grid: resolving power of all apertures is the average weighted with the areas", \A o \in O : Eqq(e.r4[o], W(o))>>,
          <<"grid: dispersed orders add up without the zeroth", Rel(e.aeffd, SumOf(Force([o \in 1..Len(e.orders) |-> e.aeff4[o]]), ND), E8)>>,
          <<"grid: resolving power of the dispersed orders", wsum # Zero => Rel(e.rd, Div(SumOf([o \in { q \in ND : ~IsNaN(e.r4[q]) } |-> Mul(e.r4[o], e.aeff4[o])], { q \in ND : ~IsNaN(e.r4[q]) }), wsum), E8)>>,
          <<"grid: header lists the orders", e.horders = e.orders>>,
          <<"grid: header of the simulations is kept", e.meta>> >>
FacetMatrix(e) ==
    LET sx == IF e.ch \in {"1m", "2m"} THEN One ELSE I(-1)
        sy == IF e.ch \in {"2", "2m"} THEN I(-1) ELSE One
        Row(i, sg, sh) == << Mul(sg, e.n[i]), Mul(sg, Mul(Div(e.xs, I(2)), e.d[i])), Mul(sg, Mul(Div(e.ys, I(2)), e.g[i])), Add(sh, Mul(sg, e.c[i])) >>
    IN << Row(1, sx, e.axis[1]), Row(2, sy, e.axis[2]), Row(3, One, e.axis[3]), << Zero, Zero, Zero, One >> >>
MNear4(A, B, tol) == Len(A) = 4 /\ \A i \in 1..4 : \A j \in 1..4 : Near(A[i][j], B[i][j], tol)
TraceStep(s, e) ==
  CASE e.k = "scene" -> [st |-> e, ck |-> << <<"period of the gratings as seen along the blaze", e.ownd = NaN \/ Rel(e.ownd, e.d, E9)>> >>]
    [] e.k = "aim" -> [st |-> s, ck |-> << <<"ray next to the end of a chip", \A i \in DOMAIN e.lam : CountOK(s, [chans |-> << e.chan >>, order |-> e.order], Div(HC, e.lam[i]), I(IF e.on[i] THEN 1 ELSE 0))>> >>]
    [] e.k = "arf" -> [st |-> s, ck |-> ArfCk(s, e)]
    [] e.k = "sum" -> [st |-> s, ck |-> << <<"response of all channels is the sum of those of single channels", \A r \in DOMAIN e.all : Rel(e.all[r], RowSum(e, r), E9)>> >>]
    [] e.k = "mirror" -> [st |-> s, ck |-> << <<"tabulated areas are found again", Len(e.got) = Len(e.want) /\ \A i \in DOMAIN e.got : Near(e.got[i], e.want[i], Add(E6, Mul(E6, Abs(e.want[i]))))>>,
                                              <<"no area outside the table", \A i \in DOMAIN e.out : e.out[i] = Zero>> >>]
    [] e.k = "name" -> [st |-> s, ck |-> << <<"file name tells channels and orders", e.got = IF e.mixed THEN MixedName(e.flags, e.ccd, e.true, e.ext) ELSE PlainName(e.flags, e.order, e.ext)>> >>]
    [] e.k = "readme" -> [st |-> s, ck |->
        << <<"read-me names the three files of an order", e.names = << MixedName(e.flags, -4, -4, "arf"), MixedName(e.flags, -4, -5, "arf"), MixedName(e.flags, -4, -3, "arf") >> >>,
           <<"read-me describes the sorting", e.desc /\ e.offsets /\ e.tags>> >>]
    [] e.k = "rmf0" -> [st |-> s, ck |->
        << <<"zeroth order: header tells threshold and first channel", Near(e.thrh, e.thr, E12) /\ e.efirst = e.chan1>>,
           <<"zeroth order: one row and one channel per bin", Len(e.row) = Len(e.edges) - 1 /\ e.det = << Len(e.edges) - 1 >> /\ e.chan = [i \in 1..Len(e.row) |-> I(e.chan1 + i - 1)]>>,
           <<"zeroth order: energies ascending", \A i \in DOMAIN e.lo : Rel(e.lo[i], e.edges[i], E6) /\ Rel(e.hi[i], e.edges[i + 1], E6)>>,
           <<"zeroth order: Gaussian of the width tabulated for the energy", \A r \in DOMAIN e.row : \A k \in DOMAIN e.row[r] : EntryOK(e.row[r][k], Entry(e, r, k), e.thr)>> >>]
    [] e.k = "zero" -> [st |-> s, ck |-> << <<e.what \o ": zeroth order is where the optical axis meets the detector", Near(e.got, e.want, E8)>> >>]
    [] e.k = "grid" -> [st |-> s, ck |-> GridCk(e)]
    [] e.k = "csv" -> [st |-> s, ck |-> << <<"one column per order in the text file", e.names = [i \in 1..Len(e.orders) |-> "order_" \o ToString(e.orders[i])]
                                                   /\ \A i \in DOMAIN e.got : (IsNaN(e.got[i]) /\ IsNaN(e.want[i])) \/ Rel(e.got[i], e.want[i], E8)>> >>]
    [] e.k = "regular" -> [st |-> s, ck |->
        << <<"regular grid: gratings below the mirrors of their channel", Len(e.c) > 0 /\ \A i \in DOMAIN e.c : /\ Near(e.c[i][1], e.axis[1], e.wx) /\ Near(e.c[i][2], e.ymid, e.wy) /\ Gt(e.c[i][3], Div(s.f, I(2)))>>,
           <<"regular grid: gratings lie on the torus of their channel", \A i \in DOMAIN e.tor : Near(e.tor[i], Zero, E6)>>,
           <<"regular grid: gratings are turned by the blaze angle from the focus of their channel", \A i \in DOMAIN e.n :
               LET v == Unit(VSub(e.c[i], e.axis)) IN Near(Abs(Dot(v, Unit(e.n[i]))), Cos(Div(Mul(e.blaze, Pi), I(180))), E9)>>,
           <<"regular grid: size and numbers", e.ids = [i \in 1..Len(e.c) |-> I(e.off + i - 1)] /\ \A i \in DOMAIN e.half : Near(e.half[i][1], e.size[1], E9) /\ Near(e.half[i][2], e.size[2], E9)>> >>]
    [] e.k = "turned" -> [st |-> s, ck |-> << <<"regular grid: channels on the other side are turned by half a turn", Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a :
               \E j \in DOMAIN e.b : /\ VNear(e.a[i].c, << Opp(e.b[j].c[1]), Opp(e.b[j].c[2]), e.b[j].c[3] >>, E6)
                                     /\ Near(Norm(Cross(e.a[i].n, << Opp(e.b[j].n[1]), Opp(e.b[j].n[2]), e.b[j].n[3] >>)), Zero, E7)>> >>]
    [] e.k = "kept" -> [st |-> s, ck |-> << <<"building a petal again changes nothing", e.before = e.after>>, <<"building a petal leaves the configuration alone", e.conf>> >>]
    [] e.k = "facets" -> [st |-> s, ck |-> << <<"petal has every facet of the table once", e.n = e.rows /\ Len(e.ids) = e.rows /\ Cardinality(SetOf(e.ids)) = e.rows>> >>]
    [] e.k = "facet" -> [st |-> s, ck |->
        << <<"facet at the tabulated place, mirrored for its channel", MNear4(e.M, FacetMatrix(e), E8)>>,
           <<"facet has its tabulated period", e.per = e.wantper>>,
           <<"facet has its number in the petal", e.id = e.wantid>>,
           <<"photon through the facet is given its number", e.pid = e.wantid>>,
           <<"photon is dispersed by the facet's own period", Near(e.turn, Div(Mul(e.m, e.lam), e.wantper), E7)>> >>]
=============================================================================
