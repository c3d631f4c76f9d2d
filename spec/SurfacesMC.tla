----------------------------- MODULE SurfacesMC -----------------------------
(* Exhaustive check of the definitions in Surfaces on a grid of rays and      *)
(* placements: the closed formulas agree with the meaning of "the forward     *)
(* path meets the surface", and placing is covariant.                         *)
EXTENDS Surfaces, FiniteSets, TLC
CONSTANT N           \* grid -N..N for the start points
VARIABLES p, d, pl
Steps == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<-1,2,1>>, <<2,-1,1>>, <<0,0,1>>, <<1,-1,-2>> }
V(t) == << I(t[1]), I(t[2]), I(t[3]) >>
Rots == { << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>,
          << <<0,0,1>>, <<0,1,0>>, <<-1,0,0>> >>, << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >> }
Pl == Rots \X { <<0,0,0>>, <<1,-1,2>> } \X { <<1,1,1>>, <<2,2,1>>, <<1,1,3>> }
Mat(x) == [i \in 1..4 |-> IF i = 4 THEN <<Zero, Zero, Zero, One>>
             ELSE << Mul(I(x[1][i][1]), I(x[3][1])), Mul(I(x[1][i][2]), I(x[3][2])),
                     Mul(I(x[1][i][3]), I(x[3][3])), I(x[2][i]) >>]
Std(x) == Diag4(V(x[3]))
HalfArc == [lo |-> <<Zero, Opp(One)>>, hi |-> <<Zero, One>>, wide |-> FALSE, full |-> FALSE]
FullArc == [lo |-> <<One, Zero>>, hi |-> <<One, Zero>>, wide |-> TRUE, full |-> TRUE]
Surf(M) == { [shape |-> "plane", M |-> M, arc |-> FullArc], [shape |-> "cylinder", M |-> M, arc |-> FullArc],
             [shape |-> "cylinder", M |-> M, arc |-> HalfArc] }
Init == p \in (-N..N) \X (-N..N) \X {-1, 0, 2} /\ d \in Steps /\ pl \in Pl
Next == UNCHANGED << p, d, pl >>
(* move a ray given in the element frame (rigid part only) into the world *)
WP(x, q) == LET L == [i \in 1..4 |-> IF i = 4 THEN <<Zero, Zero, Zero, One>>
                        ELSE << I(x[1][i][1]), I(x[1][i][2]), I(x[1][i][3]), I(x[2][i]) >>]
            IN  AppPt(L, q)
WV(x, q) == LET L == [i \in 1..4 |-> IF i = 4 THEN <<Zero, Zero, Zero, One>>
                        ELSE << I(x[1][i][1]), I(x[1][i][2]), I(x[1][i][3]), Zero >>]
            IN  AppVec(L, q)
PairOK(s, w) ==      \* s standard, w placed
    LET h == Hit(s, V(p), V(d))
    IN  /\ h = Hit(w, WP(pl, V(p)), WV(pl, V(d)))
        /\ h => /\ VNear(WP(pl, HitPoint(s, V(p), V(d))), HitPoint(w, WP(pl, V(p)), WV(pl, V(d))), E9)
                /\ OnSurface(s, HitPoint(s, V(p), V(d)), E9)
                /\ Ge(HitT(s, V(p), V(d)), Zero)
Covariant == LET A == Std(pl) B == Mat(pl)
             IN  /\ PairOK([shape |-> "plane", M |-> A, arc |-> FullArc], [shape |-> "plane", M |-> B, arc |-> FullArc])
                 /\ PairOK([shape |-> "cylinder", M |-> A, arc |-> FullArc], [shape |-> "cylinder", M |-> B, arc |-> FullArc])
                 /\ PairOK([shape |-> "cylinder", M |-> A, arc |-> HalfArc], [shape |-> "cylinder", M |-> B, arc |-> HalfArc])
(* no point of the ray before the reported one, on a grid of parameters, lies on the surface *)
Grid == { Q(k, 4) : k \in 0..14 }
FirstMeeting ==
    \A s \in Surf(Std(pl)) :
        LET h == Hit(s, V(p), V(d)) IN
        \A t \in Grid :
            LET X == AtRay(V(p), V(d), t)
                q == LocalP(s.M, X)
                on == IF s.shape = "plane" THEN q[1] = Zero /\ InUnit(q[2]) /\ InUnit(q[3])
                      ELSE Add(Sq(q[1]), Sq(q[2])) = One /\ InUnit(q[3]) /\ InArc(q, s.arc)
            IN  on => (s.shape = "plane" /\ PlaneParallel(s.M, V(d)))
                      \/ (s.shape = "cylinder" /\ CylRoots(s.M, V(p), V(d))[5] = Zero)
                      \/ (h /\ Le(HitT(s, V(p), V(d)), Add(t, E9)))
=============================================================================
