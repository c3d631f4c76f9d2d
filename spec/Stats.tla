-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Tables and distributions: linear interpolation, the normal distribution, *)
(* and the tests by which recorded random numbers are compared to a          *)
(* distribution (limits of six standard deviations: an alarm by chance has   *)
(* a probability of about 1e-9 per test).                                    *)
(***************************************************************************)
EXTENDS Num, FiniteSets
(* n draws of which c fell on share p: six standard deviations and a bit *)
Plausible(c, n, p) == Le(Sq(Sub(I(c), Mul(I(n), p))),
                         Add(Mul(I(40), Mul(I(n), Mul(p, Sub(One, p)))), I(30)))
(* linear interpolation in a table with ascending xs, constant outside of it *)
RECURSIVE CellOf(_, _, _)
CellOf(xs, x, i) == IF i = Len(xs) - 1 \/ Le(x, xs[i + 1]) THEN i ELSE CellOf(xs, x, i + 1)
LinInterp(xs, ys, x) ==
    IF Le(x, xs[1]) THEN ys[1]
    ELSE IF Ge(x, xs[Len(xs)]) THEN ys[Len(xs)]
    ELSE LET i == CellOf(xs, x, 1)
         IN  Add(ys[i], Mul(Sub(ys[i + 1], ys[i]), Div(Sub(x, xs[i]), Sub(xs[i + 1], xs[i]))))
(* normal distribution: Phi(z) = 1/2 + phi(z) * sum z^(2k+1) / (2k+1)!! *)
RECURSIVE PhiSeries(_, _, _, _)
PhiSeries(z2, term, k, acc) ==
    IF term = Zero THEN acc
    ELSE LET t == Div(Mul(term, z2), I(k + 2)) IN PhiSeries(z2, t, k + 2, Add(acc, t))
Phi(z) == IF Gt(z, I(7)) THEN One ELSE IF Lt(z, I(-7)) THEN Zero
          ELSE LET g == Mul(Exp(Div(Sq(z), I(2))), Sqrt(Mul(I(2), Pi)))      \* large: divide last
               IN  Add(Q(1, 2), Div(PhiSeries(Sq(z), z, 1, z), g))
(* arc tangent: halve the angle four times, then the series *)
RECURSIVE Halved(_, _)
Halved(x, k) == IF k = 0 THEN x ELSE Halved(Div(x, Add(One, Sqrt(Add(One, Sq(x))))), k - 1)
RECURSIVE AtanSeries(_, _, _, _)
AtanSeries(x2, term, k, acc) ==
    IF term = Zero THEN acc
    ELSE LET t == Opp(Mul(term, x2)) IN AtanSeries(x2, t, k + 2, Add(acc, Div(t, I(k + 2))))
Atan(x) == IF Gt(Abs(x), I(100000)) THEN Mul(I(x[1]), Sub(Div(Pi, I(2)), Div(One, Abs(x))))
           ELSE LET h == Halved(x, 4) IN Mul(I(16), AtanSeries(Sq(h), h, 1, h))
(* z: sequence of numbers that should be independent draws from the standard normal distribution *)
(* natural logarithm of a positive number: roots until it is near 1, then Halley steps *)
RECURSIVE Root2(_, _), LnNear(_, _, _)
Root2(x, k) == IF k = 0 THEN x ELSE Root2(Sqrt(x), k - 1)
LnNear(x, y, k) == IF k = 0 THEN y
                   ELSE LET e == Exp(y) IN LnNear(x, Add(y, Mul(I(2), Div(Sub(x, e), Add(x, e)))), k - 1)
Ln(x) == Mul(I(16), LnNear(Root2(x, 4), Zero, 5))
ExpN(x) == IF Gt(x, I(36)) THEN Zero ELSE Div(One, Exp(x))      \* exp(-x), x >= 0
RECURSIVE SumSqFrom(_, _)
SumSqFrom(z, i) == IF i > Len(z) THEN Zero ELSE Add(Sq(z[i]), SumSqFrom(z, i + 1))
StdNormal(z) ==
    LET n == Len(z)
        Within(q) == Cardinality({ i \in DOMAIN z : Le(Abs(z[i]), q) })
    IN  /\ \A i \in DOMAIN z : Finite(z[i]) /\ Le(Abs(z[i]), I(9))
        /\ Le(Sq(SumSeq(z)), I(36 * n + 36))
        /\ Le(Sq(Sub(SumSqFrom(z, 1), I(n))), I(36 * 2 * n + 200))
        /\ Plausible(Within(Q(67449, 100000)), n, Q(1, 2))
        /\ Plausible(Within(Q(2, 1)), n, Q(95450, 100000))
(* x: draws that should be uniform in [0, 1] *)
Uniform(x) ==
    LET n == Len(x)
        In(k) == Cardinality({ i \in DOMAIN x : Lt(Q(k, 8), x[i]) /\ Le(x[i], Q(k + 1, 8)) })
    IN  /\ \A i \in DOMAIN x : Ge(x[i], Opp(E9)) /\ Le(x[i], Add(One, E9))
        /\ \A k \in 0..7 : Plausible(In(k), n, Q(1, 8))
        /\ Le(Sq(Sub(SumSeq(x), Q(n, 2))), Add(I(3 * n), I(9)))
=============================================================================
