----------------------------- MODULE GratingsMC -----------------------------
(* A train of parallel gratings, explored exhaustively: the ray passes up to *)
(* MaxSteps gratings of either kind, mounted either way round, in any order  *)
(* of diffraction.  What must hold of any such history:                      *)
(*  - the ray stays a unit vector with the same component along the grooves; *)
(*  - for plain gratings the dispersion adds up: the ray depends only on the *)
(*    sum of the orders passed, so order m followed by -m restores it;       *)
(*  - mounting a plain grating the other way round flips the sign of its     *)
(*    orders, mounting a critical-angle grating the other way round changes  *)
(*    nothing;  - covariance: rotating grating and ray rotates the result.   *)
EXTENDS Gratings, TLC
CONSTANT MaxSteps, MaxOrder
VARIABLES q, p0, sum, n, lost
vars == << q, p0, sum, n, lost >>
(* exact unit vectors *)
Rays == { <<Q(12,13), Q(3,13), Q(4,13)>>, <<Q(3,5), Zero, Q(4,5)>>, <<One, Zero, Zero>>,
          <<Q(-2,3), Q(2,3), Q(1,3)>>, <<Q(6,7), Q(-2,7), Q(3,7)>>, <<Q(-2,7), Q(-3,7), Q(6,7)>> }
EX == <<One, Zero, Zero>>  EY == <<Zero, One, Zero>>  EZ == <<Zero, Zero, One>>
Grooves == { <<One, Zero>>, <<Q(3,5), Q(4,5)>>, <<Q(-4,5), Q(3,5)>> }
Step1 == Q(1, 7)                           \* lambda / d
G(c) == Groove(EY, EZ, c[1], c[2])
T(c) == Disp(EY, EZ, c[1], c[2])
Init == /\ q \in Rays /\ p0 = q /\ sum = Zero /\ n = 0 /\ lost = FALSE
Pass(kind, c, m, refl) ==
    LET x == Mul(SignOf(kind, Dot(q, T(c))), Mul(I(m), Step1))
        gone == Gt(Excess(q, G(c), T(c), x), Zero)
    IN  /\ n' = n + 1
        /\ UNCHANGED p0
        /\ lost' = gone
        /\ IF gone THEN UNCHANGED << q, sum >>
           ELSE /\ q' = Diffract(q, G(c), T(c), EX, x, refl)
                /\ sum' = Add(sum, Mul(SignOf(kind, Dot(q, T(c))), I(m)))
(* one groove direction per history, chosen through the first ray *)
C0 == IF p0[1] = One THEN <<One, Zero>> ELSE IF Lt(p0[1], Zero) THEN <<Q(3,5), Q(4,5)>> ELSE <<Q(-4,5), Q(3,5)>>
Next == /\ ~lost /\ n < MaxSteps
        /\ \E kind \in {"flat", "cat"}, m \in (-MaxOrder)..MaxOrder, refl \in BOOLEAN : Pass(kind, C0, m, refl)
UnitRay == IsUnit(q, E9)
AlongGrooves == Near(Dot(q, G(C0)), Dot(p0, G(C0)), E9)
AddsUp == Near(Dot(q, T(C0)), Add(Dot(p0, T(C0)), Mul(sum, Step1)), E9)
Restored == (sum = Zero) => Near(Abs(Dot(q, EX)), Abs(Dot(p0, EX)), E7)
(* single step facts, for every state reached *)
OrderZero == /\ VNear(Diffract(q, G(C0), T(C0), EX, Zero, FALSE), q, E7)
             /\ VNear(Diffract(q, G(C0), T(C0), EX, Zero, TRUE), VSub(q, VScale(Mul(I(2), Dot(q, EX)), EX)), E7)
Turned ==       \* grating turned by half a turn about its normal: ey, ez -> -ey, -ez
    \A m \in {-2, -1, 1, 2} : \A c \in Grooves :
        LET g == G(c) t == T(c) g2 == Groove(VNeg(EY), VNeg(EZ), c[1], c[2]) t2 == Disp(VNeg(EY), VNeg(EZ), c[1], c[2])
            X(kind, tt, mm) == Mul(SignOf(kind, Dot(q, tt)), Mul(I(mm), Step1))
            Res(kind, gg, tt, mm) == IF Gt(Excess(q, gg, tt, X(kind, tt, mm)), Zero) THEN EX
                                     ELSE Diffract(q, gg, tt, EX, X(kind, tt, mm), FALSE)
        IN /\ VNear(Res("flat", g, t, m), Res("flat", g2, t2, -m), E9)
           /\ (Dot(q, t) # Zero => VNear(Res("cat", g, t, m), Res("cat", g2, t2, m), E9))
Rot(v) == << v[3], v[1], v[2] >>          \* a proper rotation
Covariant == \A m \in {-2, 0, 1} :
    LET x == Mul(I(m), Step1) IN
    Gt(Excess(q, G(C0), T(C0), x), Zero) \/
    VNear(Rot(Diffract(q, G(C0), T(C0), EX, x, FALSE)),
          Diffract(Rot(q), Rot(G(C0)), Rot(T(C0)), Rot(EX), x, FALSE), E9)
BlazeOK == LET b == BlazeCS(q, G(C0), T(C0), EX) IN Near(Add(Sq(b[1]), Sq(b[2])), One, E9)
=============================================================================
