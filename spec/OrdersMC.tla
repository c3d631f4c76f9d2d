------------------------------ MODULE OrdersMC ------------------------------
(* A beam of photons meets a grating with a small order table; the random    *)
(* numbers run through all multiples of 1/8.  After a whole round every      *)
(* order has occurred exactly in proportion to its efficiency, and orders    *)
(* without efficiency never.                                                 *)
EXTENDS Orders, TLC
CONSTANT MaxW
VARIABLES w, k, count
vars == << w, k, count >>
W == { << a, b, c >> : a \in 0..MaxW, b \in 0..MaxW, c \in 0..MaxW }
SumI(t) == t[1] + t[2] + t[3]
Tab(t) == << Q(t[1], 16), Q(t[2], 16), Q(t[3], 16) >>
Init == w \in { t \in W : SumI(t) \in {1, 2, 4, 8} } /\ k = 0 /\ count = << 0, 0, 0 >>
Next == /\ k < 8
        /\ k' = k + 1 /\ UNCHANGED w
        /\ LET i == Selected(Tab(w), Q(k, 8)) IN count' = [count EXCEPT ![i] = @ + 1]
SupportOK == \A i \in 1..3 : count[i] > 0 => i \in Support(Tab(w))
InProportion == k = 8 => \A i \in 1..3 : count[i] * SumI(w) = w[i] * 8
Survival == WellFormed(Tab(w)) /\ Near(Total(Tab(w)), Q(SumI(w), 16), E12)
PlausibleOK == k = 8 => \A i \in 1..3 : Plausible(count[i], 8, Q(w[i], SumI(w)))
NotVacuous == ~Plausible(700, 1000, Q(1, 2)) /\ ~Plausible(10, 1000, Zero) /\ Plausible(520, 1000, Q(1, 2))
(* looking up: nearest entry and interpolation *)
En == << I(1), I(2), I(4) >>
Look == /\ NearestTo(En, Q(29, 10)) = {2} /\ NearestTo(En, Q(31, 10)) = {3} /\ NearestTo(En, I(3)) = {2, 3}
        /\ NearestTo(En, I(9)) = {3} /\ NearestTo(En, Zero) = {1}
Interp == \A x \in 0..2 : \A y \in 0..2 :
    LET c == << Q(w[1], 8), Q(w[2], 8), Q(w[3], 8), Q(1, 4) >>
        v == Bilinear(c, Q(x, 2), Q(y, 2))
    IN /\ (x = 0 /\ y = 0 => v = c[1]) /\ (x = 0 /\ y = 2 => v = c[2]) /\ (x = 2 /\ y = 0 => v = c[3])
       /\ (x = 2 /\ y = 2 => v = c[4])
       /\ \E i \in 1..4 : Le(c[i], v) /\ \E j \in 1..4 : Ge(c[j], v)
=============================================================================
