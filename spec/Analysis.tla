------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* Analysis of traced photon lists.  A photon contributes its survival      *)
(* probability to the effective area of its order, once, whatever its row;  *)
(* the area is a share of the geometric area, measured against all photons  *)
(* that were sent.  Resolving power is the distance from the zero order in   *)
(* units of the full width of the line, from the photons that survive, and   *)
(* undefined if there are fewer than 20.  Line position and width are mean   *)
(* and standard deviation after outliers (more than three standard          *)
(* deviations from the median, removed up to five times) are removed.        *)
(***************************************************************************)
EXTENDS Surfaces, Stats
LOCAL T == INSTANCE TLC
Force(f) == SubSeq(f, 1, Len(f))
Where(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)
At(s, idx) == Force([i \in 1..Len(idx) |-> s[idx[i]]])
(* --- effective area: ph.prob, ph.ord, ph.use (the photons selected) --- *)
OrderSum(ph, o) == SumSeq(At(ph.prob, Where(Len(ph.prob), LAMBDA i : ph.ord[i] = o /\ ph.use[i])))
Aeff(ph, o, n, A) == Mul(Div(OrderSum(ph, o), I(n)), A)
(* --- position and width of a line --- *)
Sorted(x) == T!SortSeq(x, Lt)
Median(x) == LET q == Sorted(x)  n == Len(x) IN
             IF n % 2 = 1 THEN q[(n + 1) \div 2] ELSE Div(Add(q[n \div 2], q[n \div 2 + 1]), I(2))
Mean(x) == Div(SumSeq(x), I(Len(x)))
Std(x) == LET m == Mean(x) IN Sqrt(Div(SumSeq(Force([i \in 1..Len(x) |-> Sq(Sub(x[i], m))])), I(Len(x))))
Inner(x) == LET m == Median(x)  w == Mul(I(3), Std(x)) IN SelectSeq(x, LAMBDA v : Le(Abs(Sub(v, m)), w))
RECURSIVE Clip(_, _)
Clip(x, k) == IF k = 0 THEN x ELSE LET y == Inner(x) IN IF Len(y) = Len(x) THEN x ELSE Clip(y, k - 1)
(* a value so close to the limit that rounding decides is not judged *)
EdgeFree(x) == LET m == Median(x)  w == Mul(I(3), Std(x)) IN \A i \in DOMAIN x : ~Near(Abs(Sub(x[i], m)), w, Mul(E9, w))
RECURSIVE ClipSafe(_, _)
ClipSafe(x, k) == k = 0 \/ (EdgeFree(x) /\ LET y == Inner(x) IN Len(y) = Len(x) \/ ClipSafe(y, k - 1))
Line(x) == Clip(x, 5)
Few == 20
FwhmSigma == <<1, 0, 0, 0, 3548, 2>>                   \* 2.3548
(* the line of order o among photons x/ord/use (finite values only) *)
OfOrder(ph, o) == At(ph.x, Where(Len(ph.x), LAMBDA i : ph.ord[i] = o /\ ph.use[i] /\ Finite(ph.x[i])))
Count(ph, o) == Cardinality({ i \in DOMAIN ph.x : ph.ord[i] = o /\ ph.use[i] })
LineSafe(ph, o) == Count(ph, o) < Few \/ ClipSafe(OfOrder(ph, o), 5)
LineOK(ph, o, pos, sd) ==
    IF Count(ph, o) < Few THEN IsNaN(pos) /\ IsNaN(sd)
    ELSE LET x == Line(OfOrder(ph, o)) IN Close(pos, Mean(x), E8) /\ Near(sd, Std(x), Mul(E7, Std(x)))
Resolve(pos, sd, zero) == Div(Abs(Sub(pos, zero)), Mul(sd, FwhmSigma))
PowerOK(r, pos, sd, zero, n) ==
    IF n < Few THEN IsNaN(r) ELSE LET R == Resolve(pos, sd, zero) IN Close(r, R, E7)
(* --- averages over orders, weighted by effective area; undefined R left out --- *)
AvgOver(r, a) == Where(Len(r), LAMBDA i : Finite(r[i]))
WSum(r, w, idx) == SumSeq(Force([k \in 1..Len(idx) |-> Mul(r[idx[k]], w[idx[k]])]))
WAvgOK(out, r, w) ==
    LET idx == AvgOver(r, w)  t == SumSeq(At(w, idx)) IN
    IF t = Zero \/ idx = <<>> THEN ~Finite(out) ELSE Close(out, Div(WSum(r, w, idx), t), E8)
(* --- two mirrored sectors around +-a0 --- *)
AngDist(c1, s1, c2, s2) == Add(Mul(c1, c2), Mul(s1, s2))      \* cosine of the angle between two directions
(* --- plane at distance x along the first column of R; position along its 2nd and 3rd axis --- *)
OnPlane(ray, R, x) ==
    LET n == Col3(R, 1)
        t == Div(Sub(x, Dot(ray.p, n)), Dot(ray.d, n))
        q == VAdd(ray.p, VScale(t, ray.d))
    IN  << Dot(q, Col3(R, 2)), Dot(q, Col3(R, 3)) >>
Spread1(rays, R, x) == Std(Force([i \in 1..Len(rays) |-> OnPlane(rays[i], R, x)[1]]))
Spread2(rays, R, x) ==
    LET q == Force([i \in 1..Len(rays) |-> OnPlane(rays[i], R, x)])
        u == Mean(Force([i \in 1..Len(q) |-> q[i][1]]))
        v == Mean(Force([i \in 1..Len(q) |-> q[i][2]]))
    IN  Mean(Force([i \in 1..Len(q) |-> Sqrt(Add(Sq(Sub(q[i][1], u)), Sq(Sub(q[i][2], v))))]))
=============================================================================
