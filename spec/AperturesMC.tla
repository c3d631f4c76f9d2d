----------------------------- MODULE AperturesMC -----------------------------
(* Several openings share the photons: each draws a ticket, and the openings, *)
(* one after the other, take those with their tickets and place them.          *)
(* Every photon ends in exactly one opening, openings never touch each other's  *)
(* photons, and every opening owns as many tickets as its area.                 *)
EXTENDS Apertures, TLC
CONSTANTS MaxAp, MaxArea, MaxPh
VARIABLES ar, ticket, at, turn
vars == << ar, ticket, at, turn >>
Init == /\ \E n \in 1..MaxAp : ar \in [1..n -> 1..MaxArea]
        /\ \E m \in 0..MaxPh : /\ ticket \in [1..m -> 0..(Upto(ar, Len(ar)) - 1)]
                               /\ at = [i \in 1..m |-> 0]
        /\ turn = 1
Fill == /\ turn <= Len(ar)
        /\ at' = [i \in DOMAIN at |-> IF Owner(ar, ticket[i]) = turn THEN turn ELSE at[i]]
        /\ turn' = turn + 1
        /\ UNCHANGED << ar, ticket >>
Next == Fill
Spec == Init /\ [][Next]_vars
OnePlace == turn > Len(ar) => \A i \in DOMAIN at : at[i] = Owner(ar, ticket[i])
Untouched == [][\A i \in DOMAIN at : at[i] # 0 => at'[i] = at[i]]_vars
Share == \A k \in DOMAIN ar : Cardinality({ u \in 0..(Upto(ar, Len(ar)) - 1) : Owner(ar, u) = k }) = ar[k]
(* wedges cover a range of angles without gap: ring ar[1] .. ar[1]+1, range turn/4 of a turn *)
F0 == Q(ar[1] - 2, 3)
F1 == Add(F0, Mul(Q(turn, 4), Pi))
Bd == Borders(F0, F1)
WedgesOK == (ticket = <<>> /\ Len(ar) = 1) =>
    \A k \in 0..40 :
       LET f == Part(F0, F1, k, 40)  q == Turned(f)  n == Cardinality({ j \in 1..8 : InWedge(Bd[j], Bd[j + 1], q, Zero) })
           out == Turned(Add(F1, Mul(Q(k + 1, 50), Sub(Mul(I(2), Pi), Sub(F1, F0))))) IN
       /\ InAngles(Bd, q, E12)
       /\ n <= 2 /\ (k % 5 # 0 => n = 1)
       /\ k < 40 => ~InAngles(Bd, out, Zero)
(* areas add up: a ring is its two halves in angle, and its two parts in radius *)
AreasOK == LET r == I(ar[1])  o == I(ar[1] + 2) IN
    /\ Near(RingArea(r, o, F0, F1), Add(RingArea(r, Add(r, One), F0, F1), RingArea(Add(r, One), o, F0, F1)), E12)
    /\ Near(RingArea(r, o, F0, F1), Mul(I(2), RingArea(r, o, F0, Part(F0, F1, 1, 2))), E10)
    /\ Near(RingPart(<< Q(1, 2), Zero >>, Zero), Q(1, 4), E12)
(* the two directions across an axis *)
AcrossOK == \A a \in -1..1 : \A b \in -1..1 : \A c \in -1..1 :
    (a # 0 \/ b # 0 \/ c # 0) =>
       LET x == Unit(<< I(a), I(b), I(c * turn) >>)  u == Across1(x)  v == Across2(x) IN
       /\ IsUnit(u, E10) /\ IsUnit(v, E10) /\ Near(Dot(u, x), Zero, E10) /\ Near(Dot(v, x), Zero, E10) /\ Near(Dot(u, v), Zero, E10)
=============================================================================
