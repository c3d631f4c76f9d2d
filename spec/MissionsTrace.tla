---------------------------- MODULE MissionsTrace ----------------------------
(*  rows:    n rows of a table, n elements, their id numbers                              *)
(*  facet:   row of the grating table, matrix of the element, ray through its middle      *)
(*  module:  row of the optics table, matrix; lens: ray through it                        *)
(*  boom:    sides, dimensions, bays, placement; ray: photon before and after             *)
(*  shells:  rows; shell: photon at the opening and before and after the efficiency table *)
(*  tile:    chip coordinates and conversion; table: all chips                            *)
(*  acis:    corners of the chips in the focal plane, shift; event: photon and columns    *)
(*  factor:  photon before and after an element with a table or one number                *)
(*  range:   identifiers and which photons were touched                                   *)
(*  budget:  tolerances in and out; number: value of a one-number file                    *)
(*  arc:     detectors along a Rowland circle                                             *)
(*  model:   a whole instrument                                                           *)
EXTENDS Missions, TraceBase
TraceSt0 == [k |-> "none"]
Force(f) == SubSeq(f, 1, Len(f))
Lambda(en) == Div(Div(I(1239841984), I(1000000000)), Mul(en, I(1000000)))     \* mm, for keV
FacetCk(e) ==
    LET r == e.row
        p == Unit(e.p)
        dq == VSub(e.q, p)
        g == Div(Mul(e.m, Lambda(e.en)), FacetPeriod(r.ring))
    IN << <<"facet at the tabulated place, in the tabulated frame and size", MNear(e.M, FacetMatrix(r), Mul(I(5), E5))>>,
          <<"facet is named as in the table", e.name = r.name>>,
          <<"photon through the middle of the facet is given its number", e.id = I(r.i)>>,
          <<"nothing changes along the grating lines", Near(Dot(dq, r.ul), Zero, E5)>>,
          <<"dispersed by the tabulated period to the tabulated side", Near(Dot(dq, r.ud), g, Add(E6, Mul(E5, Abs(g))))>> >>
ModuleCk(e) ==
    << <<"module at the tabulated radius, clocking angle and size", MClose(e.M, ModuleMatrix(e.row), E7)>> >>
(* perfect lens on the optical axis: parallel rays meet in one point *)
LensCk(e) ==
    LET f == VAdd(e.axis, VScale(e.f, Unit(e.p)))
        w == VSub(f, e.x)
    IN << <<"photon through the middle of the module is given its number", e.id = I(e.i)>>,
          <<"module focuses towards its own focal point", Near(Norm(Cross(Unit(w), e.q)), Zero, E8) /\ Gt(Dot(w, e.q), Zero)>> >>
Placed(s, e) == [pos |-> AppPt(s.inv, e.pos), dir |-> Unit(AppVec(s.inv, e.dir))]
RayCk(s, e) ==
    LET r == Placed(s, e)
        x == Absorbed(s.B, 1, r.pos, r.dir)
    IN IF x = "hit" THEN << <<"boom absorbs what crosses a strut", e.p1 = Zero /\ e.hit>> >>
       ELSE IF x = "miss" THEN << <<"boom leaves alone what passes between the struts", e.p1 = e.p0 /\ ~e.hit /\ e.same>> >>
       ELSE << >>
ShellCk(s, e) ==
    LET mine == { i \in DOMAIN s.rows : I(s.rows[i].id) = e.shell }
    IN << <<"shell of a photon is in the table", Cardinality(mine) = 1>>,
          <<"photon enters through the ring of its shell", \A i \in mine : InRing(s.rows[i], e.y, e.z)>>,
          <<"efficiency of the photon's own shell", Cardinality(mine) = 1 => \A i \in mine :
              LET a == Interp(e.en, e.e0, e.e1, e.a0[i], e.a1[i])
              IN Near(e.p1, Mul(e.p0, ShellFactor(s.rows[i], a)), E9)>>,
          <<"efficiency changes nothing else", e.same>> >>
EventCk(s, e) ==
    LET v == Unit(e.dir)
        sp == Force([i \in DOMAIN s.chips |-> Spot(s.chips[i], s.shift, e.pos, v)])
        In == { i \in DOMAIN sp : OnChip(sp[i], Opp(E7)) }
        May == { i \in DOMAIN sp : OnChip(sp[i], E7) }
    IN IF In # May THEN << >>
       ELSE IF May = {} THEN << <<"no chip for a photon that misses all", ~e.has>> >>
       ELSE IF Cardinality(May) > 1 THEN << >>
       ELSE LET i == CHOOSE j \in May : TRUE
                c == s.chips[i]
                la == Norm(VSub(c.lr, c.ll))
                lb == Norm(VSub(c.ul, c.ll))
                ch == << ChipCoord(sp[i].f, la, 1024), ChipCoord(sp[i].g, lb, 1024) >>
                t == AcisTable[c.id + 1]
                ti == Tile([scale |-> One, hand |-> One, theta |-> Mul(I(t[1]), Div(Pi, I(2))), org |-> << I(t[2]), I(t[3]) >>], ch)
                d == DetXY(sp[i].X)
                sk == SkyXY(sp[i].X, s.roll)
                N2(a, b, eps) == Near(a[1], b[1], eps) /\ Near(a[2], b[2], eps)
            IN << <<"photon is given the number of the chip it hits", e.has /\ e.ccd = I(c.id)>>,
                  <<"chip coordinates count pixels from the lower left corner", e.has => N2(e.chip, ch, Q(4, 100))>>,
                  <<"tiled coordinates by the table of the memo", e.has => N2(e.tdet, ti, Q(4, 100))>>,
                  <<"focal plane coordinates", e.has => N2(e.det, d, E4)>>,
                  <<"sky coordinates are turned by the roll", e.has => N2(e.sky, sk, E4)>> >>
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN Zero ELSE Add(q[i], Sum(q, i - 1))
TraceStep(s, e) ==
  CASE e.k = "rows" -> [st |-> s, ck |->
        << <<e.what \o ": every row once, in order", e.n = e.rows /\ Len(e.ids) = e.rows /\ \A i \in DOMAIN e.ids : e.ids[i] = I(e.first + i - 1)>> >>]
    [] e.k = "facet" -> [st |-> s, ck |-> FacetCk(e)]
    [] e.k = "module" -> [st |-> s, ck |-> ModuleCk(e)]
    [] e.k = "lens" -> [st |-> s, ck |-> LensCk(e)]
    [] e.k = "boom" -> LET B == Boom(e.n, e.d, e.from, e.to) IN
        [st |-> [k |-> "boom", B |-> B, inv |-> e.inv],
         ck |-> << <<"boom has all its struts once", Len(B) = e.count>> >>]
    [] e.k = "ray" -> [st |-> s, ck |-> RayCk(s, e)]
    [] e.k = "shells" -> [st |-> e, ck |-> << <<"one opening per shell", e.count = Len(e.rows)>> >>]
    [] e.k = "shell" -> [st |-> s, ck |-> ShellCk(s, e)]
    [] e.k = "tile" -> LET q == Tile(e.t, e.c) IN
        [st |-> s, ck |-> << <<"tiled coordinates by rotation, scale and origin", Near(q[1], e.out[1], Mul(E9, Add(One, Abs(q[1])))) /\ Near(q[2], e.out[2], Mul(E9, Add(One, Abs(q[2]))))>> >>]
    [] e.k = "table" ->
        [st |-> s, ck |-> << <<"table of tiles is the one of the memo", Len(e.chips) = Len(AcisTable) /\ \A i \in DOMAIN e.chips :
              /\ e.chips[i].scale = One /\ e.chips[i].hand = One
              /\ Near(e.chips[i].theta, Mul(I(AcisTable[i][1]), Div(Pi, I(2))), E12)
              /\ e.chips[i].org = << I(AcisTable[i][2]), I(AcisTable[i][3]) >> >> >>]
    [] e.k = "acis" -> [st |-> e, ck |-> << <<"requested chips only", e.count = Len(e.chips)>>,
                                            <<"chips keep their numbers", Len(e.ids) = Len(e.chips) /\ \A i \in DOMAIN e.ids : e.ids[i] = e.chips[i].id>> >>]
    [] e.k = "event" -> [st |-> s, ck |-> EventCk(s, e)]
    [] e.k = "meta" -> [st |-> s, ck |-> << <<"position of the instrument is written to the header", VNear(e.sim, VSub(s.aim, s.off), E9)>>,
                                            <<"chips in use are written to the header", e.detnam = s.name>> >>]
    [] e.k = "factor" -> [st |-> s, ck |-> << <<e.what, Near(e.p1, Mul(e.p0, Interp(e.en, e.e0, e.e1, e.f0, e.f1)), E9) /\ e.same>> >>]
    [] e.k = "range" -> [st |-> s, ck |->
        << <<"scatter touches exactly the modules of its channel", \A i \in DOMAIN e.id : e.turned[i] = (Ge(e.id[i], e.lo) /\ Lt(e.id[i], e.hi))>>,
           <<"scatter leaves photons where they are", e.stay>> >>]
    [] e.k = "frame" -> [st |-> s, ck |->
        << <<"frame absorbs what passes no module", \A i \in DOMAIN e.id : e.p1[i] = IF Lt(e.id[i], Zero) THEN Zero ELSE e.p0[i]>> >>]
    [] e.k = "cover" -> [st |-> s, ck |->
        << <<"middle of the modules", Near(e.mid, Div(Add(e.lo[2], e.hi[2]), I(2)), E8)>>,
           <<"rectangle covers the modules", /\ Near(e.zoom[2], Add(Div(Sub(e.hi[1], e.lo[1]), I(2)), Mul(e.az, e.maxaz)), E8)
                                             /\ Near(e.zoom[3], Add(Div(Sub(e.hi[2], e.lo[2]), I(2)), Mul(e.rs, e.maxr)), E8)>> >>]
    [] e.k = "budget" -> [st |-> s, ck |->
        << <<"tolerances are converted to mm, radian and one sigma", \A i \in 1..6 :
               Near(e.out[i], Mul(e.scale, IF ~e.conv THEN e.in[i]
                                            ELSE IF i <= 3 THEN Div(e.in[i], I(3000))
                                            ELSE Div(Mul(Div(e.in[i], I(10800)), Pi), I(180))), Add(E12, Mul(E9, Abs(e.out[i]))))>> >>]
    [] e.k = "random" -> [st |-> s, ck |->
        << <<"random global tolerances: one draw per term", \A i \in 1..6 : e.in[i] = Zero => e.out[i] = Zero>> >>]
    [] e.k = "number" -> [st |-> s, ck |->
        << <<"number in a file is read with its unit", Near(e.got, e.want, Mul(E9, Add(One, Abs(e.want)))) /\ e.unit = e.wantunit>> >>]
    [] e.k = "arc" -> [st |-> s, ck |->
        << <<"detectors lie on the circle", \A i \in DOMAIN e.dist : Near(e.dist[i], e.r, E7)>>,
           <<"detectors face the centre of the circle", \A i \in DOMAIN e.face : Near(e.face[i], One, E9)>>,
           <<"detectors are numbered along +x", Len(e.x) = Len(e.dist) /\ \A i \in 1..(Len(e.x) - 1) : Lt(e.x[i], e.x[i + 1])>>,
           <<"gaps as designed", Len(e.gap) = Len(e.want) /\ \A i \in DOMAIN e.gap : Near(e.gap[i], e.want[i], E6)>> >>]
    [] e.k = "model" -> [st |-> s, ck |->
        << <<"gratings have the size in the configuration", \A i \in DOMAIN e.half : Near(e.half[i][1], e.size[1], E8) /\ Near(e.half[i][2], e.size[2], E8)>>,
           <<"gratings lie between the radii of the shells", \A i \in DOMAIN e.rad : Between(e.rad[i], e.radii[1], e.radii[2])>>,
           <<"instrument has gratings", Len(e.half) > 0>>,
           <<"detectors cover the requested range", Len(e.dety) > 0 /\ Le(e.dety[1], Add(e.range[1], e.size[3])) /\ Ge(e.dety[Len(e.dety)], Sub(e.range[2], e.size[3]))
                 /\ \A i \in DOMAIN e.dety : Between(e.dety[i], Sub(e.range[1], e.size[3]), Add(e.range[2], e.size[3]))>>,
           <<"detectors lie on the torus", \A i \in DOMAIN e.torus : Near(e.torus[i], Zero, E6)>>,
           <<"grating normals are turned by the blaze angle", \A i \in DOMAIN e.blaze : Near(e.blaze[i], e.want, E7)>> >>]
    [] e.k = "kept" -> [st |-> s, ck |-> << <<"another model with other settings changes nothing", e.before = e.after>> >>]
    [] e.k = "chirp" -> [st |-> s, ck |-> << <<"chirped gratings focus better", Lt(Mul(I(10), e.with), Mul(I(7), e.without))>> >>]
=============================================================================
