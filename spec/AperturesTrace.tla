--------------------------- MODULE AperturesTrace ---------------------------
(*  ap:    photons passed an aperture made of openings o (shape, M, rho: inner  *)
(*         over outer radius, f0, f1: angles; ids: number to be recorded).       *)
(*         before/after: pos, dir, prob, oth (all other columns, row by row);     *)
(*         id: recorded opening; yz: recorded local coordinates; hit: which       *)
(*         photons are meant (all, if the aperture stands alone)                 *)
(*  area:  reported areas in mm^2, of the parts and together                      *)
(*  beam:  cone from place c about x, half opening h                             *)
(*  face:  distant source at c, face M                                          *)
EXTENDS Apertures, TraceBase
TraceSt0 == [n |-> 0]
Force(f) == SubSeq(f, 1, Len(f))
OpeningArea(o) == IF o.shape = "rect" THEN RectArea(o.M)
                  ELSE RingArea(Mul(o.rho, Norm(EdgeA(o.M))), Norm(EdgeA(o.M)), o.f0, o.f1)
RECURSIVE SumAreas(_, _)
SumAreas(o, i) == IF i > Len(o) THEN Zero ELSE Add(OpeningArea(o[i]), SumAreas(o, i + 1))
(* one opening and the points that should be in it *)
Inside(o, q) ==
    IF o.shape = "rect" THEN \A i \in DOMAIN q : InUnit(q[i][1], E9) /\ InUnit(q[i][2], E9)
    ELSE LET bd == Borders(o.f0, o.f1) IN
         \A i \in DOMAIN q : LET r == Add(Sq(q[i][1]), Sq(q[i][2])) IN
            /\ Ge(r, Sub(Sq(o.rho), E9)) /\ Le(r, Add(One, E9)) /\ InAngles(bd, q[i], E9)
Evenly(o, q) ==
    IF o.shape = "rect"
    THEN LET x == Force([i \in DOMAIN q |-> Div(Add(q[i][1], One), I(2))])
             y == Force([i \in DOMAIN q |-> Div(Add(q[i][2], One), I(2))])
         IN  Uniform(x) /\ Uniform(y) /\ Independent(x, y)
    ELSE LET bd == Borders(o.f0, o.f1)
             rad == Force([i \in DOMAIN q |-> RingPart(q[i], o.rho)])
             Half(i) == \E k \in 1..4 : InWedge(bd[k], bd[k + 1], q[i], Zero)
         IN  /\ EvenAngles(bd, q) /\ Uniform(rad)
             /\ \A h \in {TRUE, FALSE} : \A j \in 0..2 :
                  Plausible(Cardinality({ i \in DOMAIN q : Half(i) = h /\ Third(rad[i]) = j }), Len(q), Q(1, 6))
Loc(o, p) == << LocA(o.M, p), LocB(o.M, p) >>
RowsOf(e, k) == SelectSeq(Force([i \in DOMAIN e.id |-> i]), LAMBDA i : e.hit[i] /\ e.id[i] = e.ids[k])
Scaled2(a) == LET m == Max2(Abs(a[1]), Abs(a[2])) IN IF m = Zero THEN a ELSE << Div(a[1], m), Div(a[2], m) >>
PolCk(e) ==
    << <<"polarization is a unit vector across the ray", \A i \in DOMAIN e.d :
            /\ IsUnit(XYZ(e.q[i]), E9) /\ Near(Dot(XYZ(e.q[i]), XYZ(e.d[i])), Zero, E7) /\ e.q[i][4] = Zero>>,
       <<"polarization at the angle from +y", \A i \in DOMAIN e.d :
            Ge(Sub(One, Abs(e.d[i][2])), E6) => VNear(XYZ(e.q[i]), PolFrame(XYZ(e.d[i]), e.ang[i]), E7)>> >>
TraceStep(s, e) ==
  CASE e.k = "ap" ->
       LET N == Len(e.id)
           Mine(i) == CHOOSE k \in DOMAIN e.ids : e.ids[k] = e.id[i]
           known == \A i \in 1..N : e.hit[i] => \E k \in DOMAIN e.ids : e.ids[k] = e.id[i]
           P(i) == XYZ(e.after.pos[i])
           q == IF known THEN Force([i \in 1..N |-> IF e.hit[i] THEN Loc(e.o[Mine(i)], P(i)) ELSE << Zero, Zero >>]) ELSE <<>>
           R(k) == RowsOf(e, k)
           Qs(k) == LET r == R(k) IN Force([j \in DOMAIN r |-> q[r[j]]])
           total == SumAreas(e.o, 1)
       IN [st |-> s, ck |->
          << <<"every photon goes through exactly one opening, which is recorded", known>>,
             <<"number of photons unchanged", Len(e.after.pos) = Len(e.before.dir) /\ N = Len(e.before.dir)>>,
             <<"placed in the plane of the opening", known =>
                 \A i \in 1..N : e.hit[i] => InPlane(e.o[Mine(i)].M, P(i)) /\ e.after.pos[i][4] = One>>,
             <<"placed inside of the opening", known => \A k \in DOMAIN e.ids : Inside(e.o[k], Qs(k))>>,
             <<"evenly over the opening", (known /\ e.stat) => \A k \in DOMAIN e.ids : Evenly(e.o[k], Qs(k))>>,
             <<"openings used in proportion to their areas", (known /\ e.share) => \A k \in DOMAIN e.ids :
                 Plausible(Len(R(k)), N, Div(OpeningArea(e.o[k]), total))>>,
             <<"local coordinates recorded", known => \A i \in 1..N : e.hit[i] =>
                 Near(e.yz[i][1], q[i][1], E9) /\ Near(e.yz[i][2], q[i][2], E9)>>,
             <<"weight reduced by the cosine of the inclination", known => \A i \in 1..N : e.hit[i] =>
                 Near(e.after.prob[i], Mul(e.before.prob[i], Shown(e.o[Mine(i)].M, XYZ(e.before.dir[i]))), E9)>>,
             <<"nothing else changed", e.after.dir = e.before.dir /\ e.after.oth = e.before.oth>>,
             <<"other photons untouched", \A i \in 1..N : ~e.hit[i] =>
                 e.after.pos[i] = e.before.pos[i] /\ e.after.prob[i] = e.before.prob[i]>> >>]
    [] e.k = "area" -> [st |-> s, ck |->
          << <<"area of the opening", \A k \in DOMAIN e.o : Close(Div(e.part[k], OpeningArea(e.o[k])), One, E10)>>,
             <<"area of several openings is their sum", Close(Div(e.total, SumAreas(e.o, 1)), One, E10)>> >>]
    [] e.k = "beam" ->
       LET N == Len(e.d)
           D(i) == XYZ(e.d[i])
           mx == MaxChord(e.h)
           ch == Force([i \in 1..N |-> Sq(Div(ChordTo(e.x, D(i)), mx))])
           u == Across1(e.x)
           v == Across2(e.x)
           q == Force([i \in 1..N |-> LET a == << Div(Dot(D(i), u), mx), Div(Dot(D(i), v), mx) >> IN Scaled2(a)])
           bd == Borders(Zero, Mul(I(2), Pi))
       IN [st |-> s, ck |->
          << <<"starts at the source", \A i \in 1..N : VClose(XYZ(e.p[i]), e.c, E12) /\ e.p[i][4] = One>>,
             <<"unit directions", \A i \in 1..N : IsUnit(D(i), E10) /\ e.d[i][4] = Zero>>,
             <<"inside of the opening angle", \A i \in 1..N : Le(ch[i], Add(One, E6))>>,
             <<"evenly over the solid angle", e.stat => /\ Uniform(ch) /\ EvenAngles(bd, q)
                /\ \A h \in 1..2 : \A j \in 0..2 :
                     Plausible(Cardinality({ i \in 1..N : (Gt(q[i][1], Zero) = (h = 1)) /\ Third(ch[i]) = j }), N, Q(1, 6))>> >>
          \o PolCk(e)]
    [] e.k = "face" ->
       LET N == Len(e.d)
           P(i) == XYZ(e.p[i])
           o == [shape |-> "rect", M |-> e.M]
           q == Force([i \in 1..N |-> Loc(o, P(i))])
       IN [st |-> s, ck |->
          << <<"starts on the face", \A i \in 1..N : InPlane(e.M, P(i)) /\ e.p[i][4] = One>>,
             <<"starts inside of the face", Inside(o, q)>>,
             <<"evenly over the face", e.stat => Evenly(o, q)>>,
             <<"on the line from the source", \A i \in 1..N : VNear(XYZ(e.d[i]), Unit(VSub(P(i), e.c)), E9) /\ e.d[i][4] = Zero>> >>
          \o PolCk(e)]
    [] e.k = "steps" -> [st |-> s, ck |-> << <<"steps run before and after every opening",
            e.seq = [i \in 1..(e.n * (e.pre + e.post)) |-> LET m == (i - 1) % (e.pre + e.post) IN IF m < e.pre THEN "pre" ELSE "post"]>> >>]
=============================================================================
