------------------------------ MODULE SkyTrace ------------------------------
(*  point:  a pointing p; header values hdr (ra, dec, roll, and the nominal    *)
(*          ones); rows: ra, dec, polangle (rad), dir, pol                     *)
(*  same:   columns that a pointing must not change: before / after            *)
(*  jitter: rows before (dir, pol: fixed pointing) and after; sigma (rad)      *)
(*  dither: t, recorded pointing (ra, dec, roll in rad) and what was asked      *)
(*  shape:  an extended source ran: kind, centre c, columns                   *)
EXTENDS Sky, TraceBase
TraceSt0 == [kind |-> "none"]
Deg(rad) == Div(Mul(rad, I(180)), Pi)
NotPole(dec) == Gt(Sub(I(90), Abs(dec)), E4)
RowCk(name, q, r) ==
    << <<name \o ": direction", VNear(XYZ(r.dir), TravelDir(q, r.ra, r.dec), E10) /\ r.dir[4] = Zero>>,
       <<name \o ": polarization", NotPole(r.dec) => /\ VNear(XYZ(r.pol), PolVec(q, r.ra, r.dec, r.ang), E9)
                                                     /\ Near(r.pol[4], Zero, E12)>> >>
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN <<>> ELSE f[i] \o Flat(f, i + 1)
Center(e) == SkyVec(e.c[1], e.c[2])
Force(f) == SubSeq(f, 1, Len(f))          \* evaluates a sequence once and for all
Vs(e) == Force([i \in DOMAIN e.ra |-> SkyVec(e.ra[i], e.dec[i])])
AngEq(a, b, tol) == Near(Cos(Sub(a, b)), One, Sq(tol)) \/ VNear(<<Cos(a), Sin(a), Zero>>, <<Cos(b), Sin(b), Zero>>, tol)
ShapeCk(e) ==
  LET vs == Vs(e)
      c == Center(e)
      n == Len(vs)
      es == Force([i \in 1..n |-> OffE(e.c, vs[i])])
      ns == Force([i \in 1..n |-> OffN(e.c, vs[i])])
  IN
  CASE e.kind = "point" -> << <<"point source: every photon from the position", \A i \in 1..n : VNear(vs[i], c, E12)>> >>
    [] e.kind = "ring" ->
         << <<"disk or ring: between inner and outer radius", \A i \in 1..n : InRing(c, vs[i], e.ai, e.ao, E12)>>,
            <<"disk or ring: even per solid angle",
              e.ao = e.ai \/ Uniform(Force([i \in 1..n |-> RingShare(c, vs[i], e.ai, e.ao)]))>>,
            <<"disk or ring: even in position angle", EvenOctants(es, ns)>> >>
    [] e.kind = "radial" ->
         << <<"radial distribution: distances of the function",
              \A i \in 1..n : Near(Chord(c, vs[i]), RingChord(e.d[i]), E12)>>,
            <<"radial distribution: even in position angle", EvenOctants(es, ns)>>,
            <<"radial distribution: function asked for the number of photons", e.asked = << n >>>> >>
    [] e.kind = "gauss" ->
         << <<"Gaussian source: requested width in both directions",
              /\ StdNormal([i \in 1..n |-> Div(es[i], e.s)]) /\ StdNormal([i \in 1..n |-> Div(ns[i], e.s)])>>,
            <<"Gaussian source: no direction preferred", EvenOctants(es, ns)>> >>
    [] e.kind = "letter" ->
         LET sk == Force([i \in 1..n |-> Stroke(e.c, vs[i], e.s, E9)]) IN
         << <<"letter source: on the letter", \A i \in 1..n : sk[i] # 0>>,
            <<"letter source: whole letter", /\ \A k \in 1..3 : Cardinality({ i \in 1..n : sk[i] = k }) > n \div 12
                                             /\ \E i \in 1..n : sk[i] = 1 /\ Gt(TanLon(e.c, vs[i]), Tan(Mul(Q(3, 4), e.s)))
                                             /\ \E i \in 1..n : sk[i] = 2 /\ Gt(SinLat(e.c, vs[i]), Sin(Mul(Q(35, 100), e.s)))
                                             /\ \E i \in 1..n : sk[i] = 3 /\ Gt(SinLat(e.c, vs[i]), Sin(Mul(Q(20, 100), e.s)))>> >>
TraceStep(s, e) ==
  CASE e.k = "point" -> [st |-> e, ck |->
          << <<"pointing in the header", /\ Close(e.hdr[1], e.p.ra, E10) /\ Close(e.hdr[2], e.p.dec, E10) /\ Close(e.hdr[3], e.p.roll, E10)>>,
             <<"nominal pointing in the header", /\ Close(e.hdr[4], e.p.ra, E10) /\ Close(e.hdr[5], e.p.dec, E10) /\ Close(e.hdr[6], e.p.roll, E10)>> >>
          \o Flat([i \in DOMAIN e.rows |-> RowCk("pointing", e.p, e.rows[i])], 1)]
    [] e.k = "same" -> [st |-> s, ck |-> << <<"pointing changes nothing else", e.b = e.a>> >>]
    [] e.k = "jitter" ->
         LET ax == AppVec(e.ref, << One, Zero, Zero >>)
             ay == AppVec(e.ref, << Zero, One, Zero >>)
             az == AppVec(e.ref, << Zero, Zero, One >>)
             W == Force([i \in DOMAIN e.b |-> AxisSin(TurnOf(XYZ(e.b[i].dir), XYZ(e.b[i].pol), XYZ(e.a[i].dir), XYZ(e.a[i].pol)))])
         IN [st |-> s, ck |->
          IF e.sigma = Zero THEN << <<"no jitter: nothing moves", e.a = e.b>> >>
          ELSE
          << <<"jitter turns about axes perpendicular to the optical axis",
               \A i \in DOMAIN W : Near(Dot(W[i], ax), Zero, Add(E10, Mul(e.sigma, E6)))>>,
             <<"jitter: direction and polarization turn together",
               \A i \in DOMAIN W : /\ IsUnit(XYZ(e.a[i].dir), E10) /\ IsUnit(XYZ(e.a[i].pol), E10)
                                    /\ Near(Dot(XYZ(e.a[i].dir), XYZ(e.a[i].pol)), Zero, E10)
                                    /\ e.a[i].dir[4] = Zero /\ Near(e.a[i].pol[4], Zero, E12)>>,
             <<"jitter of the requested size",
               StdNormal([i \in DOMAIN W |-> Mul(I(IF i % 2 = 0 THEN 1 ELSE -1), Div(Norm(W[i]), e.sigma))])>>,
             <<"jitter in any direction alike",
               EvenOctants([i \in DOMAIN W |-> Dot(W[i], ay)], [i \in DOMAIN W |-> Dot(W[i], az)])>> >>]
    [] e.k = "dither" ->
         LET q == [ra |-> Deg(e.at[1]), dec |-> Deg(e.at[2]), roll |-> Deg(e.at[3]), ref |-> Id4]
             a == Wave(e.amp[1], e.per[1], e.ph[1], e.t)
             b == Wave(e.amp[2], e.per[2], e.ph[2], e.t)
             d == VSub(PX(q), PX(e.p))
         IN [st |-> s, ck |->
          << <<"dither of the requested size", Near(Norm(d), Sqrt(Add(Sq(a), Sq(b))), Add(E10, Mul(e.size, e.tol)))>>,
             <<"dither along right ascension and declination",
               e.p.roll = Zero /\ e.amp[3] = Zero =>
               /\ Near(Dot(d, EastAt(e.p.ra, e.p.dec)), a, Add(E10, Mul(e.size, e.tol)))
               /\ Near(Dot(d, NorthAt(e.p.ra, e.p.dec)), b, Add(E10, Mul(e.size, e.tol)))>>,
             <<"dither in roll", AngEq(e.at[3], Add(Rad(e.p.roll), Wave(e.amp[3], e.per[3], e.ph[3], e.t)), E9)>>,
             <<"dithered direction", VNear(XYZ(e.row.dir), TravelDir(q, e.row.ra, e.row.dec), E9)>>,
             <<"dithered polarization perpendicular", IsUnit(XYZ(e.row.pol), E9) /\ Near(Dot(XYZ(e.row.pol), XYZ(e.row.dir)), Zero, E9)>>,
             <<"dithered polarization keeps its angle to north",
               NotPole(e.row.dec) => VNear(XYZ(e.row.pol), PolVec(e.p, e.row.ra, e.row.dec, e.row.ang), Add(E9, Mul(I(20), e.size)))>> >>]
    [] e.k = "shape" -> [st |-> s, ck |->
          << <<"shape does not change number and time", Len(e.ra) = Len(e.t) /\ Len(e.dec) = Len(e.t) /\ ConstCount(Len(e.t), Mul(e.rate, e.T))
                   /\ \A i \in DOMAIN e.t : Close(e.t[i], ConstTime(i, e.rate), E7)>>,
             <<"shape does not change energy, polarization and probability",
               \A i \in DOMAIN e.t : Close(e.en[i], e.en0, E10) /\ Close(e.pol[i], e.pol0, E10) /\ e.prob[i] = One>>,
             <<"positions in degrees", \A i \in DOMAIN e.ra : Ge(e.ra[i], Zero) /\ Le(e.ra[i], I(360)) /\ Le(Abs(e.dec[i]), I(90))>> >>
          \o ShapeCk(e)]
=============================================================================
