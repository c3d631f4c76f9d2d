----------------------------- MODULE SourcesMC -----------------------------
(* The random process is a stream of waiting times that is drawn in batches   *)
(* until the exposure time is covered.  However the stream is cut in batches,  *)
(* the photons are the arrivals before the end of the exposure, none missing;  *)
(* and as every batch has at least one entry, the drawing ends.                *)
EXTENDS Sources, TLC
CONSTANTS MaxT, MaxGap, MaxBatch
VARIABLES T, gaps, pc
vars == << T, gaps, pc >>
RECURSIVE SumI(_, _)
SumI(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumI(s, i + 1)
Tuples(n) == [1..n -> 1..MaxGap]
Init == T \in 1..MaxT /\ gaps = <<>> /\ pc = "draw"
Draw == /\ pc = "draw" /\ SumI(gaps, 1) < T
        /\ \E n \in 1..MaxBatch : \E b \in Tuples(n) : gaps' = gaps \o [i \in 1..n |-> b[i]]
        /\ UNCHANGED << T, pc >>
Stop == pc = "draw" /\ SumI(gaps, 1) >= T /\ pc' = "done" /\ UNCHANGED << T, gaps >>
Next == Draw \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Out == Arrivals(gaps, 1, 0, T)
Complete == pc = "done" =>
    /\ \A i \in DOMAIN Out : Out[i] < T /\ Out[i] >= 0 /\ (i > 1 => Out[i] > Out[i - 1])
    /\ Len(Out) < Len(gaps)                            \* the next arrival is known to be late
    /\ SumI(SubSeq(gaps, 1, Len(Out) + 1), 1) >= T
Ends == <>(pc = "done")
(* constant rate: T in tenths, rate = number of gaps *)
ConstOK == LET r == Len(gaps) + 1  mu == Mul(Q(T, 10), I(r)) IN
    \A c \in 0..(MaxT * 8) : ConstCount(c, mu) <=>
        /\ c > 0 => Lt(ConstTime(c, I(r)), Add(Q(T, 10), E9))
        /\ Ge(ConstTime(c + 1, I(r)), Sub(Q(T, 10), E9))
(* a table made from the waiting times; entries alternate with empty bins *)
X == [i \in 1..(Len(gaps) + 1) |-> I(SumI(SubSeq(gaps, 1, i - 1), 1))]
Y == [i \in 1..(Len(gaps) + 1) |-> IF i = 1 THEN I(77) ELSE IF i % 3 = 0 THEN Zero ELSE Q(i, gaps[i - 1])]
TableOK == Len(gaps) > 0 =>
    /\ \A k \in 0..(2 * SumI(gaps, 1)) :
         LET v == Q(k, 2)  w == Q(k + 1, 2) IN
         /\ Le(CdfTab(X, Y, v), CdfTab(X, Y, w))
         /\ (~InDensity(X, Y, Add(v, Q(1, 4)), Zero)) => Near(CdfTab(X, Y, v), CdfTab(X, Y, w), E12)
    /\ CdfTab(X, Y, X[1]) = Zero /\ Near(CdfTab(X, Y, X[Len(X)]), One, E12)
    /\ ~InDensity(X, Y, I(-1), Zero) /\ ~InDensity(X, Y, I(1 + SumI(gaps, 1)), Zero)
=============================================================================
