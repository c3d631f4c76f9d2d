------------------------------ MODULE Surfaces ------------------------------
(***************************************************************************)
(* Where does a ray meet a placed surface?  A surface is given by its      *)
(* placement matrix M (4x4: column 4 the centre, columns 1..3 the          *)
(* stretched axes of the element).                                         *)
(*   plane:    { C + u*Y + v*Z : |u| <= 1, |v| <= 1 }                       *)
(*   cylinder: { C + cos*X + sin*Y + v*Z : |v| <= 1, angle within limits } *)
(* Angles never appear as numbers in the definition: the angular range is  *)
(* given by the direction vectors of its borders and a flag whether it is  *)
(* wider than half a turn.                                                  *)
(***************************************************************************)
EXTENDS Vec
Ctr(M) == Col3(M, 4)
AX(M) == Col3(M, 1)
AY(M) == Col3(M, 2)
AZ(M) == Col3(M, 3)
(* coordinates of point X in the element's frame, in units of its axes *)
LocalV(M, V) == << Div(Dot(V, AX(M)), Norm2(AX(M))), Div(Dot(V, AY(M)), Norm2(AY(M))),
                   Div(Dot(V, AZ(M)), Norm2(AZ(M))) >>
LocalP(M, X) == LocalV(M, VSub(X, Ctr(M)))
AtRay(p, d, t) == VAdd(p, VScale(t, d))

Eps == E9
(* a number is clearly away from a border *)
Clear(x, eps) == Gt(Abs(x), eps)
---------------------------------------------------------------------------
(* plane: parameter of the one point where the line of the ray meets it *)
PlaneT(M, p, d) == Div(Dot(VSub(Ctr(M), p), AX(M)), Dot(d, AX(M)))
PlaneParallel(M, d) == Dot(d, AX(M)) = Zero
InUnit(x) == Le(Abs(x), One)
PlaneHit(M, p, d) ==
    /\ ~PlaneParallel(M, d)
    /\ LET t == PlaneT(M, p, d)
           q == LocalP(M, AtRay(p, d, t))
       IN  Ge(t, Zero) /\ InUnit(q[2]) /\ InUnit(q[3])
(* far enough from every border that rounding in the code cannot matter *)
PlaneRobust(M, p, d) ==
       /\ Gt(Abs(Dot(d, AX(M))), Mul(E6, Norm(AX(M))))
       /\ LET t == PlaneT(M, p, d)
              q == LocalP(M, AtRay(p, d, t))
          IN  Clear(t, Eps) /\ Clear(Sub(Abs(q[2]), One), Eps) /\ Clear(Sub(Abs(q[3]), One), Eps)
---------------------------------------------------------------------------
(* cylinder *)
Cr2(a, b) == Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))
(* q = <<cos,sin>> of a point; lo, hi borders; wide: range > pi; full: everything *)
InArc(q, a) == \/ a.full
               \/ IF a.wide THEN ~(Gt(Cr2(a.hi, q), Zero) /\ Gt(Cr2(q, a.lo), Zero))
                  ELSE Ge(Cr2(a.lo, q), Zero) /\ Ge(Cr2(q, a.hi), Zero)
ArcRobust(q, a) == a.full \/ (Clear(Cr2(a.lo, q), Eps) /\ Clear(Cr2(q, a.hi), Eps))
CylRoots(M, p, d) ==      \* <<discriminant >= 0, t1, t2>> with t1 <= t2
    LET q == LocalP(M, p)
        k == Norm(AX(M))                   \* measure along the ray in units of the radius: keeps the digits
        r == LocalV(M, VScale(k, d))
        A == Add(Sq(r[1]), Sq(r[2]))
        Bh == Add(Mul(q[1], r[1]), Mul(q[2], r[2]))
        C == Sub(Add(Sq(q[1]), Sq(q[2])), One)
        disc == Sub(Sq(Bh), Mul(A, C))
    IN  IF A = Zero \/ Lt(disc, Zero) THEN << FALSE, Zero, Zero, disc, A >>
        ELSE LET s == Sqrt(disc)
             IN  << TRUE, Mul(k, Div(Sub(Opp(Bh), s), A)), Mul(k, Div(Add(Opp(Bh), s), A)), disc, A >>
CylOK(M, a, p, d, t) ==
    LET q == LocalP(M, AtRay(p, d, t)) IN Ge(t, Zero) /\ InUnit(q[3]) /\ InArc(q, a)
CylHit(M, a, p, d) ==
    LET r == CylRoots(M, p, d)
    IN  r[1] /\ (CylOK(M, a, p, d, r[2]) \/ CylOK(M, a, p, d, r[3]))
(* the nearer valid point *)
CylT(M, a, p, d) ==
    LET r == CylRoots(M, p, d) IN IF CylOK(M, a, p, d, r[2]) THEN r[2] ELSE r[3]
RootRobust(M, a, p, d, t) ==
    LET q == LocalP(M, AtRay(p, d, t))
    IN  Clear(t, E6) /\ Clear(Sub(Abs(q[3]), One), E6) /\ ArcRobust(q, a)
CylRobust(M, a, p, d) ==
    LET r == CylRoots(M, p, d)
        g == Mul(E6, r[5])
    IN  /\ Gt(r[5], E6)           \* not (nearly) parallel to the axis
   
             /\ IF r[1] THEN Gt(r[4], g) /\ RootRobust(M, a, p, d, r[2]) /\ RootRobust(M, a, p, d, r[3])
                ELSE Lt(r[4], Opp(g))
---------------------------------------------------------------------------
Hit(s, p, d) == IF s.shape = "plane" THEN PlaneHit(s.M, p, d) ELSE CylHit(s.M, s.arc, p, d)
Robust(s, p, d) == IF s.shape = "plane" THEN PlaneRobust(s.M, p, d) ELSE CylRobust(s.M, s.arc, p, d)
HitT(s, p, d) == IF s.shape = "plane" THEN PlaneT(s.M, p, d) ELSE CylT(s.M, s.arc, p, d)
HitPoint(s, p, d) == AtRay(p, d, HitT(s, p, d))
(* is X on the surface and inside its borders? (with slack tol) *)
OnSurface(s, X, tol) ==
    LET q == LocalP(s.M, X)
    IN  IF s.shape = "plane"
        THEN Le(Abs(q[1]), tol) /\ Le(Abs(q[2]), Add(One, tol)) /\ Le(Abs(q[3]), Add(One, tol))
        ELSE Near(Add(Sq(q[1]), Sq(q[2])), One, tol) /\ Le(Abs(q[3]), Add(One, tol))
(* outward unit normal of the cylinder x^2/a^2 + y^2/b^2 = 1 at local q *)
CylNormal(M, q) == Unit(VAdd(VScale(Div(q[1], Norm2(AX(M))), AX(M)),
                             VScale(Div(q[2], Norm2(AY(M))), AY(M))))
=============================================================================
