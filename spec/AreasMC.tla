------------------------------ MODULE AreasMC ------------------------------
(* An observer adds channels to a response and writes it to files, order after  *)
(* order.  The response is accumulated channel by channel ("total") and also     *)
(* computed for the whole set; every file name ever used must stand for one       *)
(* response only.  A careless writer that leaves the channels out of the name     *)
(* ("short") does lose files.                                                      *)
EXTENDS Areas
CONSTANTS MaxStep, MaxOrder, NBin
VARIABLES chans, order, total, files, short, seen, step      \* seen: what is on a chip, worked out once
vars == << chans, order, total, files, short, seen, step >>
Axes == << "1", "2", "1m", "2m" >>
X0 == [c \in {"1", "2", "1m", "2m"} |-> CASE c = "1" -> I(-378) [] c = "2" -> I(-373) [] c = "1m" -> I(373) [] OTHER -> I(378)]
F == I(11876)
Period == I(2000)
Chips == << << << I(-700), I(8) >>, << I(-560), I(5) >> >>, << << I(-550), I(5) >>, << I(-400), I(2) >> >>,
            << << I(390), I(2) >>, << I(560), I(5) >> >>, << << I(575), I(5) >>, << I(710), I(8) >> >> >>
Lam(b) == I(10 + 7 * b)
Views(c) == [i \in 1..Len(Chips) |-> Seen(Chips[i], X0[c], F)]
OnTab == { x \in (DOMAIN X0) \X (-MaxOrder..MaxOrder) \X (1..NBin) : OnAny(Views(x[1]), SinRay(x[2], Lam(x[3]), Period), Zero) = "on" }
On(c, m, b) == << c, m, b >> \in seen
One1(c, m) == [b \in 1..NBin |-> IF On(c, m, b) THEN 1 ELSE 0]
Whole(S, m) == [b \in 1..NBin |-> Cardinality({ c \in S : On(c, m, b) })]
Plus(p, q) == [b \in 1..NBin |-> p[b] + q[b]]
Nothing == [b \in 1..NBin |-> 0]
Content == << chans, order >>
Put(d, k, v) == [x \in DOMAIN d \cup {k} |-> IF x = k THEN (IF k \in DOMAIN d THEN d[k] \cup {v} ELSE {v}) ELSE d[x]]
Init == chans = {} /\ order \in -MaxOrder..MaxOrder /\ total = Nothing /\ files = << >> /\ short = << >> /\ seen = OnTab /\ step = 0
AddChannel == \E c \in {"1", "2", "1m", "2m"} \ chans : chans' = chans \cup {c} /\ total' = Plus(total, One1(c, order)) /\ UNCHANGED << order, files, short >>
Restart == chans # {} /\ chans' = {} /\ total' = Nothing /\ order' \in {order + 1, -order} /\ order' <= MaxOrder /\ UNCHANGED << files, short >>
Write == /\ chans # {}
         /\ files' = Put(files, PlainName(Flags(Axes, chans), order, "arf"), Content)
         /\ short' = Put(short, Signed(order), Content)
         /\ UNCHANGED << chans, order, total >>
WriteMixed == /\ chans # {}
              /\ \E t \in {order - 1, order, order + 1} : files' = Put(files, MixedName(Flags(Axes, chans), order, t, "arf"), << chans, order, t >>)
              /\ UNCHANGED << chans, order, total, short >>
Next == step < MaxStep /\ step' = step + 1 /\ UNCHANGED seen /\ (AddChannel \/ Restart \/ Write \/ WriteMixed)
SumOK == total = Whole(chans, order)
NamesOK == \A k \in DOMAIN files : Cardinality(files[k]) = 1
ShortOK == \A k \in DOMAIN short : Cardinality(short[k]) = 1        \* false for longer histories
CountOK == \A b \in 1..NBin : total[b] \in 0..Cardinality(chans)
(* chip gaps depend on order times wavelength only *)
GapOK == step = 0 => \A c \in {"1", "2m"} : \A m \in 1..MaxOrder : \A w \in 10..30 :
            OnAny(Views(c), SinRay(m, I(w), Period), Zero) = OnAny(Views(c), SinRay(1, I(m * w), Period), Zero)
(* an instrument mirrored left to right has the same response *)
MirrorOK == step = 0 => \A c \in {"1", "2"} : \A b \in 1..NBin :
            LET V == [i \in 1..Len(Chips) |-> Seen(<< << Opp(Chips[i][1][1]), Chips[i][1][2] >>, << Opp(Chips[i][2][1]), Chips[i][2][2] >> >>, Opp(X0[c]), F)]
            IN OnAny(V, SinRay(order, Lam(b), Period), Zero) = OnAny(Views(c), SinRay(order, Lam(b), Period), Zero)
(* the zeroth order goes straight on, whatever the wavelength *)
StraightOK == \A c \in chans : \A b \in 1..NBin : On(c, 0, b) = On(c, 0, 1)
AverageOK == step = 0 => \A i \in 0..3 : \A j \in 0..3 : \A k \in 0..3 :
            LET r == << I(10), NaN, I(30) >>  a == << I(i), I(j), I(k) >>  w == Weighted(r, a) IN
               IF i + k = 0 THEN IsNaN(w) ELSE Between(w, I(10), I(30)) /\ w = Div(I(10 * i + 30 * k), I(i + k))
ClipOK == step = 0 => \A w \in 0..12 : LET y == MirrorQuad(<< I(6), I(-5), One >>, I(1), I(10), I(w)) IN
            Ge(y, Zero) /\ (w \in {0, 11, 12} => y = Zero) /\ (w \in {4, 9} => y = I(6 - 5 * w + w * w))
=============================================================================
