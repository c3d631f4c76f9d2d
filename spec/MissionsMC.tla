------------------------------ MODULE MissionsMC ------------------------------
(* Tables are worked off row by row, in any order; booms, chips and shells at small sizes. *)
EXTENDS Missions, FiniteSets
CONSTANTS Big
VARIABLES todo, placed, ph, ray
vars == << todo, placed, ph, ray >>
(* shells, numbered in any way *)
Serials == IF Big THEN { << 1, 2, 3, 4 >>, << 7, 3, 5, 1 >>, << 2, 9, 4, 6 >> } ELSE { << 1, 2, 3 >>, << 5, 3, 9 >> }
Shells(s) == { [id |-> s[i], in |-> I(10 * i), out |-> I(10 * i + 5), aeff |-> Q(2 * i - 1, 2)] : i \in 1..Len(s) }
Dims == [longeron |-> I(6), batten |-> I(4), diag |-> Sqrt(I(52)), dlongeron |-> Q(1, 10), dbatten |-> Q(2, 10), ddiag |-> Q(1, 20)]
Coo == IF Big THEN { Q(-7, 2), I(-2), Q(-1, 1), Zero, Q(1, 3), I(2), Q(5, 2) } ELSE { I(-2), Zero, Q(1, 3), I(2) }
Xs == IF Big THEN { Q(-1, 2), Zero, Q(3, 2), I(3), I(6), Q(91, 10), I(14) } ELSE { Zero, Q(3, 2), I(6), I(14) }
Dirs == { << Opp(One), Zero, Zero >>, << Zero, Opp(One), Zero >>, << Zero, Zero, One >>, << Zero, Q(3, 5), Q(-4, 5) >>,
          << Q(-12, 13), Q(3, 13), Q(4, 13) >> }
Away == << I(6), Zero, Zero >>
First(s) == s = << 1, 2, 3 >> \/ s = << 1, 2, 3, 4 >>
Init == \E s \in Serials : \E i \in 1..Len(s) : \E a \in Xs : \E b \in Coo : \E c \in Coo : \E v \in Dirs :
            /\ << a, b, c >> = Away \/ (First(s) /\ i = 1)
            /\ todo = Shells(s) /\ placed = << >>
            /\ ph = [shell |-> s[i], row |-> i, prob |-> One, n |-> 0]
            /\ ray = [p |-> << a, b, c >>, v |-> v]
Place(r) == /\ todo' = todo \ {r} /\ placed' = Append(placed, r.id)
            /\ ph' = IF ph.shell = r.id THEN [ph EXCEPT !.prob = Mul(ph.prob, ShellFactor(r, r.aeff)), !.n = @ + 1] ELSE ph
            /\ UNCHANGED ray
Next == ray.p = Away /\ \E r \in todo : Place(r)
All == { placed[i] : i \in DOMAIN placed }
PlacedOK == /\ Cardinality(All) = Len(placed)
            /\ \A r \in todo : r.id \notin All
ShellOK == /\ ph.n = IF ph.shell \in All THEN 1 ELSE 0
           /\ (todo = {} => ph.n = 1 /\ Near(ph.prob, Clip01(Div(Mul(I(100), Q(2 * ph.row - 1, 2)),
                                                   Mul(Pi, I(25 + 100 * ph.row)))), E12))
           /\ Between(ph.prob, Zero, One)
Fresh == placed = << >>                 \* the rest does not depend on the progress with the table
Once == Fresh /\ ray.p = Away /\ ray.v = << Opp(One), Zero, Zero >>
(* booms: symmetric under turns by one side; repeat from bay to bay; diagonals end at the corners *)
Quarter(w) == << w[1], Opp(w[3]), w[2] >>
Third(w) == LET c == Q(-1, 2)
                s == Div(Sqrt(I(3)), I(2))
            IN << w[1], Sub(Mul(c, w[2]), Mul(s, w[3])), Add(Mul(s, w[2]), Mul(c, w[3])) >>
Agree(a, b) == a = b \/ a = "edge" \/ b = "edge"
B4 == Boom(4, Dims, 0, 2)
B3 == Boom(3, Dims, 0, 2)
TurnOK == Fresh => /\ Agree(Absorbed(B4, 1, ray.p, ray.v), Absorbed(B4, 1, Quarter(ray.p), Quarter(ray.v)))
                   /\ Agree(Absorbed(B3, 1, ray.p, ray.v), Absorbed(B3, 1, Third(ray.p), Third(ray.v)))
BayOK == Fresh => LET up == << I(6), Zero, Zero >> IN
            Agree(Absorbed(Boom(4, Dims, 0, 1), 1, ray.p, ray.v), Absorbed(Boom(4, Dims, 1, 2), 1, VAdd(ray.p, up), ray.v))
PartOK == Fresh => (Absorbed(Boom(4, Dims, 1, 2), 1, ray.p, ray.v) = "hit" => Absorbed(B4, 1, ray.p, ray.v) = "hit")
CountOK == Len(B4) = 32 /\ Len(B3) = 24
EndsOK == Once => \A n \in {3, 4} : LET B == Boom(n, Dims, 0, 1) IN
            \A i \in DOMAIN B : \A k \in {One, Opp(One)} :
                \E j \in 0..(n - 1) : \E x \in {Zero, I(6)} :
                    VNear(VAdd(B[i].c, VScale(Mul(k, B[i].h), B[i].u)), At(Corner(n, Dims.batten, j), x), E8)
(* a ray aimed at the middle of a strut from aside hits it *)
AimOK == Once => \A i \in DOMAIN B4 : LET w == Unit(Cross(B4[i].u, IF i % 2 = 0 THEN << Q(3, 5), Q(4, 5), Zero >> ELSE << Zero, Q(3, 5), Q(4, 5) >>)) IN
            Finite3(w) => Crossing(B4[i], VAdd(B4[i].c, VScale(I(3), w)), VNeg(w)) = "hit"
(* chips of the shipped table do not overlap in the tiled system, and whole pixels go to whole pixels *)
Lim(t) == LET a == TilePix(t, 1, 1)
              b == TilePix(t, 1024, 1024)
          IN << IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[1] < b[1] THEN b[1] ELSE a[1],
                IF a[2] < b[2] THEN a[2] ELSE b[2], IF a[2] < b[2] THEN b[2] ELSE a[2] >>
TilesOK == Once => \A i \in DOMAIN AcisTable : \A j \in DOMAIN AcisTable : i < j =>
            LET a == Lim(AcisTable[i])
                b == Lim(AcisTable[j])
            IN a[2] < b[1] \/ b[2] < a[1] \/ a[4] < b[3] \/ b[4] < a[3]
TileLawOK == Once => \A i \in DOMAIN AcisTable : \A x \in {1, 512, 1024} : \A y \in {1, 300, 1024} :
            LET t == AcisTable[i]
                q == Tile([scale |-> One, hand |-> One, theta |-> Mul(I(t[1]), Div(Pi, I(2))), org |-> << I(t[2]), I(t[3]) >>], << I(x), I(y) >>)
                z == TilePix(t, x, y)
            IN Near(q[1], I(z[1]), E8) /\ Near(q[2], I(z[2]), E8)
SkyOK == LET X == << I(-190), ray.p[2], ray.p[3] >>
             s == SkyXY(X, Q(1, 3))
             d == DetXY(X)
         IN Fresh => /\ Near(Add(Sq(Sub(s[1], AcisZero)), Sq(Sub(s[2], AcisZero))), Add(Sq(Sub(d[1], AcisZero)), Sq(Sub(d[2], AcisZero))), E8)
                     /\ SkyXY(X, Zero) = d
(* modules: rigid, on their ring, long side away from the axis *)
ModuleOK == Once => \A a \in Coo : LET M == ModuleMatrix([rmid |-> I(300), ang |-> a, len |-> I(20), hy |-> I(15), hz |-> I(8)]) IN
            /\ Near(Norm(Col3(M, 4)), I(300), E8)
            /\ Near(Dot(Col3(M, 2), Col3(M, 4)), Zero, E8) /\ Near(Dot(Col3(M, 3), Col3(M, 4)), I(2400), E6)
            /\ Near(Norm(Col3(M, 2)), I(15), E8) /\ Gt(Det3(M), Zero)
=============================================================================
