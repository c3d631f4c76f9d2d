------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* Order tables: a sequence of efficiencies w[i] >= 0 with sum <= 1, one   *)
(* per order.  A photon survives with the sum of the efficiencies, and is   *)
(* put into order i with probability w[i] / sum (inverse of the cumulated   *)
(* distribution for a uniform number u in [0, 1)).                          *)
(***************************************************************************)
EXTENDS Stats
Total(w) == SumSeq(w)
WellFormed(w) == (\A i \in DOMAIN w : Ge(w[i], Zero)) /\ Le(Total(w), Add(One, E9))
RECURSIVE Cum(_, _)
Cum(w, i) == IF i = 0 THEN Zero ELSE Add(Cum(w, i - 1), w[i])
(* the order selected by u: the first whose cumulated share exceeds u *)
Selected(w, u) == CHOOSE i \in DOMAIN w : /\ Gt(Cum(w, i), Mul(u, Total(w)))
                                           /\ \A j \in 1..(i-1) : ~Gt(Cum(w, j), Mul(u, Total(w)))
Support(w) == { i \in DOMAIN w : Gt(w[i], Zero) }
(* table over energies: the entry closest in energy *)
NearestTo(en, e) == { k \in DOMAIN en : \A j \in DOMAIN en : Le(Abs(Sub(en[k], e)), Abs(Sub(en[j], e))) }
(* table over a grid: linear interpolation inside one cell, corners c = <<00, 01, 10, 11>> *)
Bilinear(c, fx, fy) == Add(Mul(Sub(One, fx), Add(Mul(Sub(One, fy), c[1]), Mul(fy, c[2]))),
                           Mul(fx, Add(Mul(Sub(One, fy), c[3]), Mul(fy, c[4]))))
=============================================================================
