-------------------------------- MODULE Sky --------------------------------
(***************************************************************************)
(* Positions on the sky, pointings and extended sources.                    *)
(* Sky positions are given by right ascension and declination in degrees;   *)
(* as vectors: x to (0, 0), y to (90, 0), z to the celestial north pole.     *)
(***************************************************************************)
EXTENDS Sources
Rad(deg) == Div(Mul(deg, Pi), I(180))
(* --- the sky -------------------------------------------------------- *)
SkyVec(ra, dec) == LET a == Rad(ra)  d == Rad(dec) IN << Mul(Cos(d), Cos(a)), Mul(Cos(d), Sin(a)), Sin(d) >>
NorthAt(ra, dec) == LET a == Rad(ra)  d == Rad(dec) IN << Opp(Mul(Sin(d), Cos(a))), Opp(Mul(Sin(d), Sin(a))), Cos(d) >>
EastAt(ra, dec) == LET a == Rad(ra) IN << Opp(Sin(a)), Cos(a), Zero >>
(* --- pointings: p = [ra, dec, roll (degrees), ref (4x4)] ------------- *)
(* x towards the aimpoint, z to the position angle of the roll (north over east) *)
PX(p) == SkyVec(p.ra, p.dec)
PZ(p) == LET r == Rad(p.roll) IN VAdd(VScale(Cos(r), NorthAt(p.ra, p.dec)), VScale(Sin(r), EastAt(p.ra, p.dec)))
PY(p) == Cross(PZ(p), PX(p))
Frame(p) == << PX(p), PY(p), PZ(p) >>
InFrame(f, v) == << Dot(v, f[1]), Dot(v, f[2]), Dot(v, f[3]) >>
OnInstr(p, v) == AppVec(p.ref, InFrame(Frame(p), v))
TravelDir(p, ra, dec) == VNeg(OnInstr(p, SkyVec(ra, dec)))
PolVec(p, ra, dec, ang) == VAdd(VScale(Cos(ang), OnInstr(p, NorthAt(ra, dec))),
                                VScale(Sin(ang), OnInstr(p, EastAt(ra, dec))))
(* --- dither: offsets in two directions and in roll at time t (radian) - *)
Wave(amp, per, ph, t) == Mul(amp, Sin(Add(Mul(Mul(I(2), Pi), Div(t, per)), ph)))
(* --- the turn that takes (d, q) to (d1, q1) --------------------------- *)
TurnOf(d, q, d1, q1) ==
    LET a == << d, q, Cross(d, q) >>
        b == << d1, q1, Cross(d1, q1) >>
        R(i, j) == Add(Mul(b[1][i], a[1][j]), Add(Mul(b[2][i], a[2][j]), Mul(b[3][i], a[3][j])))
    IN  << << R(1, 1), R(1, 2), R(1, 3) >>, << R(2, 1), R(2, 2), R(2, 3) >>, << R(3, 1), R(3, 2), R(3, 3) >> >>
(* its axis times the sine of its angle *)
AxisSin(R) == << Div(Sub(R[3][2], R[2][3]), I(2)), Div(Sub(R[1][3], R[3][1]), I(2)), Div(Sub(R[2][1], R[1][2]), I(2)) >>
(* --- shapes: c centre (ra, dec), positions relative to it -------------- *)
Chord(c, v) == Norm(VSub(v, c))                   \* its square, 2 (1 - cos distance), goes with the solid angle
RingChord(a) == Mul(I(2), Sin(Div(a, I(2))))
(* between inner and outer radius *)
InRing(c, v, ai, ao, abs) ==
    LET q == Chord(c, v) IN Ge(q, Sub(RingChord(ai), abs)) /\ Le(q, Add(RingChord(ao), abs))
(* share of the solid angle of the ring that lies further in *)
RingShare(c, v, ai, ao) ==
    LET q == Chord(c, v)  i == RingChord(ai)  o == RingChord(ao)
        r == Mul(Div(Sub(q, i), Sub(o, i)), Div(Add(q, i), Add(o, i)))
    IN  Max2(Zero, Min2(One, r))
(* offset to the east and north *)
OffE(c, v) == Dot(v, EastAt(c[1], c[2]))
OffN(c, v) == Dot(v, NorthAt(c[1], c[2]))
Octant(e, n) == (IF Gt(e, Zero) THEN 4 ELSE 0) + (IF Gt(n, Zero) THEN 2 ELSE 0) + (IF Gt(Abs(e), Abs(n)) THEN 1 ELSE 0)
EvenOctants(e, n) == \A k \in 0..7 :
    Plausible(Cardinality({ i \in DOMAIN e : Octant(e[i], n[i]) = k }), Len(e), Q(1, 8))
(* letter F of size s: strokes, as offsets in longitude and latitude of a frame at the centre *)
LonLat(c, lon, lat) ==
    VAdd(VAdd(VScale(Mul(Cos(lat), Cos(lon)), SkyVec(c[1], c[2])),
              VScale(Mul(Cos(lat), Sin(lon)), EastAt(c[1], c[2]))), VScale(Sin(lat), NorthAt(c[1], c[2])))
(* tan of the longitude, sine of the latitude *)
TanLon(c, v) == Div(Dot(v, EastAt(c[1], c[2])), Dot(v, SkyVec(c[1], c[2])))
SinLat(c, v) == OffN(c, v)
Tan(x) == Div(Sin(x), Cos(x))
Stroke(c, v, s, tol) ==
    LET t == TanLon(c, v)  b == SinLat(c, v)
        On(lo, hi, x) == Ge(x, Sub(lo, tol)) /\ Le(x, Add(hi, tol))
        at(q) == Tan(Mul(q, s))
    IN  IF Near(b, Zero, tol) /\ On(Zero, at(One), t) THEN 1
        ELSE IF Near(t, at(One), tol) /\ On(Zero, Sin(Mul(Q(1, 2), s)), b) THEN 2
        ELSE IF Near(t, at(Q(8, 10)), tol) /\ On(Zero, Sin(Mul(Q(3, 10), s)), b) THEN 3 ELSE 0
=============================================================================
