------------------------------ MODULE LensesMC ------------------------------
(* Bundles of parallel rays through lenses: a state is a set of rays of one   *)
(* direction that were sent through the lens so far, with the point of the    *)
(* focal sphere they reach; rays are added one by one.                        *)
EXTENDS Lenses, FiniteSets, TLC
CONSTANT MaxRays, Thin
VARIABLES p, lens, rays
vars == << p, lens, rays >>
Dirs == { <<One, Zero, Zero>>, <<Q(12,13), Q(3,13), Q(4,13)>>, <<Q(-6,7), Q(2,7), Q(3,7)>> }
Ms == { << <<One, Zero, Zero, Zero>>, <<Zero, I(2), Zero, Zero>>, <<Zero, Zero, I(2), Zero>>, <<Zero, Zero, Zero, One>> >>,
        << <<Zero, Opp(I(2)), Zero, One>>, <<One, Zero, Zero, I(2)>>, <<Zero, Zero, I(2), I(-1)>>, <<Zero, Zero, Zero, One>> >> }
Fs == { I(10), I(40) }
Ds == { Zero, I(3) }
Init == p \in Dirs /\ lens \in Ms \X Fs \X Ds /\ rays = {} /\ Dot(p, AX(lens[1])) # Zero
Init0 == p \in Dirs /\ lens \in Ms \X Fs \X Ds /\ rays = {}
U == { Zero, Q(1, 2), Q(-9, 10) }
At(u, v) == VAdd(Ctr(lens[1]), VAdd(VScale(u, AY(lens[1])), VScale(v, AZ(lens[1]))))
Next == /\ Cardinality(rays) < MaxRays
        /\ \E u \in U, v \in U : rays' = rays \cup { At(u, v) }
        /\ UNCHANGED << p, lens >>
M == lens[1]  f == lens[2]  d == lens[3]
(* all rays of the bundle run through the focus, in front of them, and are unit vectors *)
OneFocus == \A X \in rays :
    LET q == PerfectDir(M, d, f, p, X)
        F == Focus(M, d, f, p)
        s == Dot(q, VSub(F, X))
    IN  IsUnit(q, E9) /\ Gt(s, Zero) /\ VNear(AtRay(X, q, s), F, E8)
CentreRay == VNear(PerfectDir(M, d, f, p, OptCentre(M, d)), p, E9) /\ VNear(ThinDir(M, f, p, Ctr(M)), p, E9)
ThinOK == \A X \in rays :
    LET q == ThinDir(M, f, p, X)
        r == VSub(X, Ctr(M))
        a == ThinAngle(M, f, X)
    IN  /\ IsUnit(q, E9)
        /\ Near(Dot(p, q), Cos(a), E8)
        /\ Near(Dot(q, Cross(p, r)), Zero, E8)
        /\ Le(Dot(q, r), Add(Dot(p, r), E9))
(* for perpendicular rays close to the axis both kinds of lens agree up to third order in the angle *)
Agree == \A X \in rays : (Near(Abs(Dot(p, Unit(AX(M)))), One, E9) /\ d = Zero) =>
    LET a == ThinAngle(M, f, X)
    IN  VNear(ThinDir(M, f, p, X), PerfectDir(M, d, f, p, X), Add(E8, Mul(a, Sq(a))))
=============================================================================
