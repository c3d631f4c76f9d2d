----------------------------- MODULE AnalysisMC -----------------------------
(* A photon list grows photon by photon, photons are lost and rows swapped;  *)
(* a ledger of probability per order kept along the way must agree with the  *)
(* effective area calculated from the final list, whatever the history.      *)
EXTENDS Analysis, TLC
CONSTANTS MaxPh, Ords
VARIABLES ph, ledger, sent
vars == << ph, ledger, sent >>
P == { Q(1, 4), Q(1, 2), One }
Init == ph = [prob |-> <<>>, ord |-> <<>>, use |-> <<>>] /\ ledger = [o \in Ords |-> Zero] /\ sent = 0
Send(p, o) == /\ Len(ph.prob) < MaxPh
              /\ ph' = [prob |-> Append(ph.prob, p), ord |-> Append(ph.ord, o), use |-> Append(ph.use, TRUE)]
              /\ ledger' = [ledger EXCEPT ![o] = Add(@, p)] /\ sent' = sent + 1
Lose(i) == /\ ph.prob[i] # Zero
           /\ ledger' = IF ph.use[i] THEN [ledger EXCEPT ![ph.ord[i]] = Sub(@, ph.prob[i])] ELSE ledger
           /\ ph' = [ph EXCEPT !.prob[i] = Zero] /\ UNCHANGED sent
Deselect(i) == /\ ph.use[i]
               /\ ph' = [ph EXCEPT !.use[i] = FALSE]
               /\ ledger' = [ledger EXCEPT ![ph.ord[i]] = Sub(@, ph.prob[i])] /\ UNCHANGED sent
Sw(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Swap(i) == /\ ph' = [prob |-> Sw(ph.prob, i), ord |-> Sw(ph.ord, i), use |-> Sw(ph.use, i)]
           /\ UNCHANGED << ledger, sent >>
Next == \/ \E p \in P, o \in Ords : Send(p, o)
        \/ \E i \in DOMAIN ph.prob : Lose(i) \/ Deselect(i)
        \/ \E i \in 1..(Len(ph.prob) - 1) : Swap(i)
A == Q(7, 2)
LedgerOK == sent > 0 => \A o \in Ords : Near(Aeff(ph, o, sent, A), Mul(Div(ledger[o], I(sent)), A), E12)
RECURSIVE SumO(_)
SumO(S) == IF S = {} THEN Zero ELSE LET o == CHOOSE o \in S : TRUE IN Add(Aeff(ph, o, sent, A), SumO(S \ {o}))
NeverMoreThanGeometric == sent > 0 => Le(SumO(Ords), Add(A, E12))
(* facts about lines, checked once *)
Ramp(n) == [i \in 1..n |-> Q(i, 10)]
LineFacts == sent = 0 =>
    /\ Median(<< I(3), One, I(2) >>) = I(2) /\ Median(<< I(3), One, I(2), I(10) >>) = Q(5, 2)
    /\ Near(Std(<< One, I(3) >>), One, E12)
    /\ Line(Ramp(20)) = Ramp(20)
    /\ Line(Append(Ramp(20), I(50))) = Ramp(20)                     \* an outlier is not part of the line
    /\ LineOK([x |-> Ramp(19), ord |-> [i \in 1..19 |-> 1], use |-> [i \in 1..19 |-> TRUE]], 1, NaN, NaN)
    /\ ~LineOK([x |-> Ramp(20), ord |-> [i \in 1..20 |-> 1], use |-> [i \in 1..20 |-> TRUE]], 1, NaN, NaN)
    /\ WAvgOK(I(3), << I(3), NaN >>, << Q(1, 2), One >>)
    /\ WAvgOK(I(4), << I(3), NaN, I(6) >>, << I(2), One, One >>)
    /\ ~WAvgOK(Q(9, 2), << I(3), NaN, I(6) >>, << I(2), One, One >>)
    /\ WAvgOK(NaN, << NaN >>, << One >>) /\ WAvgOK(NaN, << I(2) >>, << Zero >>)
(* a converging bundle is sharpest at its focus *)
Bundle == << [p |-> << I(10), I(2), Zero >>, d |-> << I(-8), I(-2), Zero >>],
             [p |-> << I(10), I(-1), Zero >>, d |-> << I(-8), I(1), Zero >>],
             [p |-> << I(10), Zero, I(3) >>, d |-> << I(-8), Zero, I(-3) >>] >>
Eye == << <<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>> >>
FocusFacts == sent = 0 =>
    /\ Near(Spread2(Bundle, Eye, I(2)), Zero, E9) /\ Near(Spread1(Bundle, Eye, I(2)), Zero, E9)
    /\ \A k \in 3..9 : Gt(Spread2(Bundle, Eye, I(k)), Spread2(Bundle, Eye, I(k - 1)))
=============================================================================
