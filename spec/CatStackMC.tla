----------------------------- MODULE CatStackMC -----------------------------
(* Photons walk through stacks with the layers in any order. *)
EXTENDS CatStack
CONSTANTS Many
VARIABLES ph, p0, c, el, todo, done, en
vars == << ph, p0, c, el, todo, done, en >>
Ey == << Zero, One, Zero >>
Ez == << Zero, Zero, One >>
Ex == << One, Zero, Zero >>
Frames == { << Ez, Ey, Ex >>, << VAdd(VScale(Q(4, 5), Ez), VScale(Q(-3, 5), Ey)), VAdd(VScale(Q(4, 5), Ey), VScale(Q(3, 5), Ez)), Ex >> }
Dirs == { << Opp(One), Zero, Zero >>, << Q(-12, 13), Q(-3, 13), Q(4, 13) >> }
        \cup (IF Many THEN { << Q(6, 7), Q(-2, 7), Q(3, 7) >>, Unit(<< Opp(One), Q(3, 100), Q(-1, 1000) >>) } ELSE {})
L1s == { [width |-> Q(9, 10000), period |-> Q(5, 1000), depth |-> Q(4, 1000)] }
       \cup (IF Many THEN { [width |-> Q(1, 1000), period |-> Q(11, 10000), depth |-> Q(1, 10000)] } ELSE {})
L2s == { [width |-> Q(96, 1000), period |-> Q(962, 1000), depth |-> Q(1, 10)] }
Cell == [t0 |-> Q(7, 10), t1 |-> Q(72, 100)]
Names == { "membrane", "quality", "fine", "coarse", "broaden" }
Init == /\ p0 \in Dirs /\ ph = [p |-> p0, prob |-> << One, One >>, m |-> Zero]
        /\ en \in { Q(3, 10), I(2) }
        /\ \E F \in Frames : \E a \in L1s : \E b \in L2s :
             el = [F |-> F, d |-> Q(2, 10000), q |-> Q(1, 100), l1 |-> a, l2 |-> b]
        /\ \E m \in (IF Many THEN { -8, -5, -1, 0, 3 } ELSE { -5, 0, 3 }) : \E m1 \in { -1, 0, 2 } : \E b \in BOOLEAN :
             c = [m |-> I(m), m1 |-> I(m1), f |-> Q(1, 3), f1 |-> Q(99, 100), bar |-> b, cell |-> Cell]
        /\ todo = Names /\ done = << >>
Next == \E x \in todo : /\ Sure(x, el, el.F, en, ph, c)
                        /\ ph' = Apply(x, el, el.F, en, ph, c)
                        /\ todo' = todo \ {x} /\ done' = Append(done, x)
                        /\ UNCHANGED << p0, c, el, en >>
Is(x) == x \notin todo
UnitOK == IsUnit(ph.p, E10)
ProbOK == /\ Le(Zero, ph.prob[1]) /\ Le(ph.prob[1], ph.prob[2]) /\ Le(ph.prob[2], One)
          /\ (Is("membrane") => Le(ph.prob[2], c.f)) /\ (Is("fine") /\ ~c.bar => Le(ph.prob[2], c.f1))
(* the two gratings act on perpendicular components, whichever comes first *)
CrossOK == /\ Near(Dot(ph.p, el.F[2]), IF Is("membrane") THEN Add(Dot(p0, el.F[2]), CatX(p0, el.F[2], c.m, en, el.d)) ELSE Dot(p0, el.F[2]), E10)
           /\ Near(Dot(ph.p, el.F[1]), IF Is("fine") /\ ~c.bar THEN Add(Dot(p0, el.F[1]), CatX(p0, el.F[1], c.m1, en, el.l1.period)) ELSE Dot(p0, el.F[1]), E10)
           /\ Dot(ph.p, Ex)[1] = Dot(p0, Ex)[1]
StraightOK == (c.m = Zero /\ (c.bar \/ c.m1 = Zero)) => VNear(ph.p, p0, E10)
QualityOK == Near(QFactor(el.q, c.m), ExpN(Mul(Mul(c.m, c.m), Opp(Ln(QFactor(el.q, One))))), E10)
CoarseOK == LET a == CoarseOpen(el.l2, Zero)
                b == CoarseOpen(el.l2, Norm(Cross(ph.p, Ex)))
            IN Le(b, a) /\ Lt(a, One)
BroadenOK == Lt(BroadenSigma(el.l2, I(2)), BroadenSigma(el.l2, Q(3, 10)))
BarOK == Near(BarShare(el.l1), Sub(One, Div(Free(el.l1), el.l1.period)), E10)
         /\ Le(BarCell(Cell, el.l1.depth)[1], BarCell(Cell, el.l1.depth)[2])
         /\ Near(Through(Q(7, 10), Q(2, 1000)), Q(49, 100), E10)
=============================================================================
