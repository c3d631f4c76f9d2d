---------------------------- MODULE SourcesTrace ----------------------------
(*  run:  a source ran for T seconds.  t, en, pol, prob: the columns;          *)
(*        exposure: header; flux, esrc, psrc: what was asked for               *)
(*  sum:  end of a series of runs of a random process: mu is the expectation,  *)
(*        of the total number of photons                                      *)
(*  draw: d drawn from the density (x, y); edges: only bin edges are wanted     *)
(*  unc:  n placement errors P (4x4), drawn with widths w (3 shifts, 3 angles)  *)
(*        around offsets o                                                     *)
EXTENDS Sources, TraceBase
TraceSt0 == [n |-> 0]
TwoPi == Mul(I(2), Pi)
AllAre(v, x, tol) == \A i \in DOMAIN v : Close(v[i], x, tol)
SameSeq(a, b, tol) == /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], tol)
(* an asked quantity: q = constant, table, function or random; v the values *)
QuantityCk(name, q, v, t, en) ==
    CASE q.kind = "const" -> << <<name \o ": the constant", AllAre(v, q.v, E10)>> >>
      [] q.kind = "angstrom" -> << <<name \o ": of the wavelength", AllAre(v, Div(HC, q.v), E8)>> >>
      [] q.kind = "table" ->
            << <<name \o ": only from bins with flux", \A i \in DOMAIN v : InDensity(q.x, q.y, v[i], E10)>>,
               <<name \o ": as often as tabulated", Len(v) > 0 => (DrawnFrom(q.x, q.y, v) /\ BinsOK(q.x, q.y, v))>> >>
      [] q.kind = "func" ->
            << <<name \o ": function gets the photon times", SameSeq(q.t, t, E12)>>,
               <<name \o ": function gets the energies", q.twoargs => SameSeq(q.en, en, E12)>>,
               <<name \o ": values of the function are used", SameSeq(v, q.ret, E10)>> >>
      [] q.kind = "random" -> << <<name \o ": any angle alike", Uniform([i \in DOMAIN v |-> Div(v[i], TwoPi)])>> >>
TimeCk(f, t, T) ==
    CASE f.kind = "const" ->
           LET r == Mul(f.flux, f.area) IN
           << <<"as many photons as flux x area x time", ConstCount(Len(t), Mul(r, T))>>,
              <<"evenly spaced in time", \A k \in DOMAIN t : Close(t[k], ConstTime(k, r), E7)>>,
              <<"times ascend from 0 to the exposure", StrictlyAscending(t) /\ \A i \in DOMAIN t : Ge(t[i], Zero) /\ Le(t[i], Add(T, Mul(T, E9)))>> >>
      [] f.kind = "poisson" ->
           LET mu == Mul(Mul(f.flux, f.area), T) IN
           << <<"random process: plausible number", PoissonCount(Len(t), mu)>>,
              <<"random process: any time alike", Len(t) > 0 => Uniform([i \in DOMAIN t |-> Div(t[i], T)])>>,
              <<"random process: times ascend from 0 to the exposure", Ascending(t) /\ Within(t, T)>> >>
      [] f.kind = "func" ->
           << <<"flux function gets exposure and area", Close(f.T, T, E12) /\ Close(f.gotarea, f.area, E12)>>,
              <<"times of the flux function are used", SameSeq(t, f.ret, E12)>> >>
Euler(a) ==    \* turns about the fixed axes x, y, z one after the other
    LET cx == Cos(a[1])  sx == Sin(a[1])  cy == Cos(a[2])  sy == Sin(a[2])  cz == Cos(a[3])  sz == Sin(a[3])
        RX == Lin4(<< <<One, Zero, Zero>>, <<Zero, cx, Opp(sx)>>, <<Zero, sx, cx>> >>)
        RY == Lin4(<< <<cy, Zero, sy>>, <<Zero, One, Zero>>, <<Opp(sy), Zero, cy>> >>)
        RZ == Lin4(<< <<cz, Opp(sz), Zero>>, <<sz, cz, Zero>>, <<Zero, Zero, One>> >>)
    IN  MM(RZ, MM(RY, RX))
TraceStep(s, e) ==
  CASE e.k = "run" -> [st |-> [n |-> s.n + Len(e.t)], ck |->
          << <<"one row per photon", Len(e.en) = Len(e.t) /\ Len(e.pol) = Len(e.t) /\ Len(e.prob) = Len(e.t)>>,
             <<"probability one", \A i \in DOMAIN e.prob : e.prob[i] = One>>,
             <<"exposure time in the header", Close(e.exposure, e.T, E12)>> >>
          \o TimeCk(e.flux, e.t, e.T)
          \o QuantityCk("energy", e.esrc, e.en, e.t, e.en)
          \o QuantityCk("polarization", e.psrc, e.pol, e.t, e.en)]
    [] e.k = "sum" -> [st |-> s, ck |-> << <<"random process: plausible number in total", PoissonCount(s.n, e.mu)>> >>]
    [] e.k = "draw" -> [st |-> s, ck |->
          << <<"number of draws", Len(e.d) = e.n>>,
             <<"draws only in bins of non-zero density",
               IF e.edges THEN EdgesOnly(e.x, e.y, e.d)
               ELSE \A j \in DOMAIN e.d : InDensity(e.x, e.y, e.d[j], E12)>>,
             <<"draws as often as density x width", BinsOK(e.x, e.y, e.d)>>,
             <<"draws even inside the bins", e.edges \/ DrawnFrom(e.x, e.y, e.d)>> >>]
    [] e.k = "unc" -> [st |-> s, ck |->
          LET z(f(_), j) == [i \in DOMAIN e.P |-> Div(Sub(f(i), e.o[j]), e.w[j])]
              Dof(f(_), j) == IF e.w[j] = Zero THEN \A i \in DOMAIN e.P : Near(f(i), e.o[j], E10) ELSE StdNormal(z(f, j))
          IN
          << <<"number of placement errors", Len(e.P) = e.n>>,
             <<"shifts with the requested width and offset",
               /\ Dof(LAMBDA i : e.P[i][1][4], 1) /\ Dof(LAMBDA i : e.P[i][2][4], 2) /\ Dof(LAMBDA i : e.P[i][3][4], 3)>>,
             <<"turns with the requested width and offset",
               /\ Dof(LAMBDA i : e.a[i][1], 4) /\ Dof(LAMBDA i : e.a[i][2], 5) /\ Dof(LAMBDA i : e.a[i][3], 6)>>,
             <<"rigid motions, turned about x, y, z",
               \A i \in DOMAIN e.P : /\ MNear(LinPart(e.P[i]), Euler(e.a[i]), E8)
                                      /\ e.P[i][4] = << Zero, Zero, Zero, One >>>>,
             <<"degrees of freedom independent",
               \A j \in 1..6 : \A k \in 1..6 : j < k =>
                 LET D(q, i) == IF q <= 3 THEN Sub(e.P[i][q][4], e.o[q]) ELSE Sub(e.a[i][q - 3], e.o[q])
                 IN  (e.w[j] # Zero /\ e.w[k] # Zero) =>
                     Le(Sq(SumSeq([i \in DOMAIN e.P |-> Mul(Div(D(j, i), e.w[j]), Div(D(k, i), e.w[k]))])), I(40 * e.n + 200))>> >>]
=============================================================================
