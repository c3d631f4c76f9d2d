------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Emission of photons: when, with which energy, with which polarization,   *)
(* and sampling from tabulated densities.                                   *)
(***************************************************************************)
EXTENDS Vec, Stats
(* --- times ----------------------------------------------------------- *)
(* constant rate r for exposure T: one photon at every k/r in [0, T)       *)
ConstCount(c, mu) == /\ Lt(I(c - 1), Add(mu, Mul(E9, Add(One, mu))))
                     /\ Ge(I(c), Sub(mu, Mul(E9, Add(One, mu))))
ConstTime(k, r) == Div(I(k - 1), r)
Ascending(t) == \A i \in 1..(Len(t) - 1) : Le(t[i], t[i + 1])
StrictlyAscending(t) == \A i \in 1..(Len(t) - 1) : Lt(t[i], t[i + 1])
Within(t, T) == \A i \in DOMAIN t : Ge(t[i], Zero) /\ Lt(t[i], T)
(* a random process with expectation mu *)
PoissonCount(c, mu) == Le(Sq(Sub(I(c), mu)), Add(Mul(I(40), mu), I(30)))
(* a stream of waiting times, cut at the exposure time *)
RECURSIVE Arrivals(_, _, _, _)
Arrivals(gaps, i, now, T) ==
    IF i > Len(gaps) \/ now + gaps[i] >= T THEN <<>>
    ELSE << now + gaps[i] >> \o Arrivals(gaps, i + 1, now + gaps[i], T)
(* --- photon energy for a wavelength in Angstrom ----------------------- *)
HC == Q(1239841984, 100000000)                   \* keV * Angstrom
(* --- tabulated densities: entry i covers x[i-1] to x[i], entry 1 nothing *)
Weight(x, y, i) == IF i = 1 THEN Zero ELSE Mul(y[i], Sub(x[i], x[i - 1]))
RECURSIVE CumTo(_, _, _)
CumTo(x, y, i) == IF i = 1 THEN << Zero >>
                  ELSE LET c == CumTo(x, y, i - 1) IN Append(c, Add(c[i - 1], Weight(x, y, i)))
Cum(x, y) == CumTo(x, y, Len(x))
Total(x, y) == Cum(x, y)[Len(x)]
(* may v be drawn? (tol: rounding at the edges) *)
InDensity(x, y, v, tol) == \E i \in 2..Len(x) : /\ Gt(y[i], Zero) /\ Gt(x[i], x[i - 1])
                                               /\ Ge(v, Sub(x[i - 1], tol)) /\ Le(v, Add(x[i], tol))
CdfTab(x, y, v) == Div(LinInterp(x, Cum(x, y), v), Total(x, y))
DrawnFrom(x, y, d) ==
    LET c == Cum(x, y)
        t == Total(x, y)
    IN  Uniform([j \in DOMAIN d |-> Div(LinInterp(x, c, d[j]), t)])
(* number of draws per bin *)
InBin(x, i, d) == Cardinality({ j \in DOMAIN d : Gt(d[j], x[i - 1]) /\ Le(d[j], x[i]) })
BinsOK(x, y, d) == \A i \in 2..Len(x) :
    Plausible(InBin(x, i, d), Len(d), Div(Weight(x, y, i), Total(x, y)))
(* only upper bin edges are returned *)
EdgesOnly(x, y, d) == \A j \in DOMAIN d : \E i \in 2..Len(x) : d[j] = x[i] /\ Gt(Weight(x, y, i), Zero)
=============================================================================
