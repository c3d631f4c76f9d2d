------------------------------- MODULE Missions -------------------------------
(***************************************************************************)
(* Instruments assembled from design tables: facets of a transmission      *)
(* grating, mirror modules, nested mirror shells, detector chips, and the  *)
(* struts of an optical bench.                                             *)
(***************************************************************************)
EXTENDS Vec
Inch == Div(I(254), I(10))
---------------------------------------------------------------------------
(* facets of the High Energy Transmission Grating: row r of the table; lengths in mm *)
HetgShift == Mul(Sub(Div(I(339909), I(1000)), Div(I(17), I(10))), Inch)
IsMeg(ring) == ring <= 3
FacetCentre(r) == << Add(r.c[1], HetgShift), r.c[2], r.c[3] >>
FacetHalf(ring) == Div(Mul(IF IsMeg(ring) THEN Q(1035, 1000) ELSE Q(920, 1000), Inch), I(2))
FacetPeriod(ring) == IF IsMeg(ring) THEN Div(I(400195), I(1000000000)) ELSE Div(I(200081), I(1000000000))
FacetMatrix(r) == LET y == VScale(FacetHalf(r.ring), r.x)
                      z == VScale(FacetHalf(r.ring), r.y)
                      c == FacetCentre(r)
                  IN << << r.u[1], y[1], z[1], c[1] >>, << r.u[2], y[2], z[2], c[2] >>, << r.u[3], y[3], z[3], c[3] >>,
                        << Zero, Zero, Zero, One >> >>
---------------------------------------------------------------------------
(* silicon pore optics: modules on rings around the x axis, clocked from +z towards +y *)
ModuleMatrix(r) == LET s == Sin(r.ang)
                       c == Cos(r.ang)
                   IN << << r.len, Zero, Zero, Zero >>,
                         << Zero, Mul(c, r.hy), Mul(s, r.hz), Mul(r.rmid, s) >>,
                         << Zero, Opp(Mul(s, r.hy)), Mul(c, r.hz), Mul(r.rmid, c) >>,
                         << Zero, Zero, Zero, One >> >>
---------------------------------------------------------------------------
(* struts: centre c, unit axis u, half length h, radius r *)
Strut(c, v, len, dia) == [c |-> c, u |-> Unit(v), h |-> Div(len, I(2)), r |-> Div(dia, I(2))]
Mid(a, b) == VScale(Q(1, 2), VAdd(a, b))
(* corner j of a bay's frame: a regular polygon of n sides of length batten around the x axis *)
Corner(n, batten, j) ==
    IF n = 4 THEN LET b == Div(batten, I(2)) IN CASE j % 4 = 0 -> << Zero, b, b >> [] j % 4 = 1 -> << Zero, Opp(b), b >>
                                                  [] j % 4 = 2 -> << Zero, Opp(b), Opp(b) >> [] OTHER -> << Zero, b, Opp(b) >>
    ELSE LET R == Div(batten, Sqrt(I(3)))
             b == Div(batten, I(2))
         IN CASE j % 3 = 0 -> << Zero, R, Zero >> [] j % 3 = 1 -> << Zero, Opp(Div(R, I(2))), b >>
              [] OTHER -> << Zero, Opp(Div(R, I(2))), Opp(b) >>
At(c, x) == << x, c[2], c[3] >>
Side(n, d, bay, j) ==
    LET x == Mul(I(bay), d.longeron)
        y == Mul(I(bay + 1), d.longeron)
        a == At(Corner(n, d.batten, j), x)
        b == At(Corner(n, d.batten, j + 1), x)
        aa == At(a, y)
        bb == At(b, y)
    IN << Strut(Mid(a, aa), VSub(aa, a), d.longeron, d.dlongeron),
          Strut(Mid(a, b), VSub(b, a), d.batten, d.dbatten),
          Strut(Mid(a, bb), VSub(bb, a), d.diag, d.ddiag),
          Strut(Mid(b, aa), VSub(aa, b), d.diag, d.ddiag) >>
RECURSIVE Sides(_, _, _, _)
Sides(n, d, bay, j) == IF j = n THEN << >> ELSE Side(n, d, bay, j) \o Sides(n, d, bay, j + 1)
RECURSIVE Boom(_, _, _, _)
Boom(n, d, from, to) == IF from = to THEN << >> ELSE Sides(n, d, from, 0) \o Boom(n, d, from + 1, to)
(* does the ray p + t v (unit v, t >= 0) cross the wall of the strut?  "hit", "miss" or "edge" *)
Crossing(s, p, v) ==
    LET q == VSub(p, s.c)
        vu == Dot(v, s.u)
        qu == Dot(q, s.u)
        w == VSub(v, VScale(vu, s.u))
        o == VSub(q, VScale(qu, s.u))
        a == Norm2(w)
    IN IF Lt(a, E6) THEN (IF Gt(Norm(o), Mul(I(2), s.r)) /\ a = Zero THEN "miss" ELSE "edge")
       ELSE LET tm == Opp(Div(Dot(w, o), a))            \* closest to the axis
                m == Norm(VAdd(o, VScale(tm, w)))
                eps == Mul(E5, s.r)
            IN IF Gt(m, Add(s.r, eps)) THEN "miss"
               ELSE IF Gt(m, Sub(s.r, eps)) THEN "edge"
               ELSE LET dt == Div(Sqrt(Sub(Sq(s.r), Sq(m))), Sqrt(a))
                        in == Sub(tm, dt)
                        out == Add(tm, dt)
                        z(t) == Add(qu, Mul(t, vu))
                        Ok(t) == Gt(t, eps) /\ Lt(Abs(z(t)), Sub(s.h, eps))
                        No(t) == Lt(t, Opp(eps)) \/ Gt(Abs(z(t)), Add(s.h, eps))
                    IN IF Ok(in) \/ Ok(out) THEN "hit"
                       ELSE IF No(in) /\ No(out) THEN
                            (IF Lt(out, Zero) \/ (z(in)[1] = z(out)[1]) THEN "miss" ELSE "edge")   \* through both ends
                       ELSE "edge"
RECURSIVE Absorbed(_, _, _, _)
Absorbed(B, i, p, v) == IF i > Len(B) THEN "miss"
                        ELSE LET x == Crossing(B[i], p, v)
                             IN IF x = "hit" THEN "hit"
                                ELSE LET y == Absorbed(B, i + 1, p, v)
                                     IN IF y = "hit" THEN "hit" ELSE IF x = "edge" THEN "edge" ELSE y
---------------------------------------------------------------------------
(* nested shells: serial number, inner and outer radius, a column of effective areas (cm^2) *)
RingArea(r) == Mul(Pi, Sub(Sq(r.out), Sq(r.in)))
InRing(r, y, z) == LET d == Sqrt(Add(Sq(y), Sq(z))) IN Le(Sub(r.in, E7), d) /\ Le(d, Add(r.out, E7))
Interp(x, x0, x1, y0, y1) == IF x1 = x0 THEN y0 ELSE Add(y0, Mul(Sub(y1, y0), Div(Sub(x, x0), Sub(x1, x0))))
Clip01(x) == IF Lt(x, Zero) THEN Zero ELSE IF Gt(x, One) THEN One ELSE x
ShellFactor(r, aeff) == Clip01(Div(Mul(I(100), aeff), RingArea(r)))
---------------------------------------------------------------------------
(* chip coordinates to tiled detector coordinates *)
Tile(t, c) ==
    LET k == Mul(t.scale, t.hand)
        x == Sub(c[1], Q(1, 2))
        y == Sub(c[2], Q(1, 2))
        ct == Cos(t.theta)
        sn == Sin(t.theta)
    IN << Add(Mul(k, Add(Mul(ct, x), Mul(sn, y))), Add(t.org[1], Q(1, 2))),
          Add(Mul(k, Sub(Mul(ct, y), Mul(sn, x))), Add(t.org[2], Q(1, 2))) >>
(* the table of the coordinate memo for ACIS: quarter turns and origin *)
AcisTable == << << 1, 3061, 5131 >>, << 3, 5131, 4107 >>, << 1, 3061, 4085 >>, << 3, 5131, 3061 >>, << 0, 791, 1702 >>,
                << 0, 1833, 1702 >>, << 0, 2875, 1702 >>, << 0, 3917, 1702 >>, << 0, 4959, 1702 >>, << 0, 6001, 1702 >> >>
(* the same for whole pixels and quarter turns *)
TilePix(t, x, y) == CASE t[1] = 0 -> << t[2] + x, t[3] + y >>
                      [] t[1] = 1 -> << t[2] + y, t[3] + 1 - x >>
                      [] t[1] = 2 -> << t[2] + 1 - x, t[3] + 1 - y >>
                      [] OTHER    -> << t[2] + 1 - y, t[3] + x >>
(* chips: corners ll, lr, ul of the pixel area after the shift by instrument position *)
AcisFocal == Div(I(1006165), I(100))
AcisPix == Div(I(24), I(1000))                     \* mm
AcisZero == Add(I(4096), Q(1, 2))
AcisAngle == Div(Mul(Div(Q(492, 1000), I(3600)), Pi), I(180))
Spot(c, sh, p, v) ==                               \* distance along the ray, and fractions along both edges
    LET o == VAdd(c.ll, sh)
        a == VSub(c.lr, c.ll)
        b == VSub(c.ul, c.ll)
        n == Unit(Cross(a, b))
        den == Dot(n, v)
    IN IF Lt(Abs(den), E6) THEN [ok |-> FALSE, t |-> Zero, f |-> Zero, g |-> Zero, X |-> V0]
       ELSE LET t == Div(Dot(n, VSub(o, p)), den)
                X == VAdd(p, VScale(t, v))
                q == VSub(X, o)
            IN [ok |-> TRUE, t |-> t, f |-> Div(Dot(q, a), Norm2(a)), g |-> Div(Dot(q, b), Norm2(b)), X |-> X]
OnChip(s, eps) == s.ok /\ Gt(s.t, Zero) /\ Between(s.f, Opp(eps), Add(One, eps)) /\ Between(s.g, Opp(eps), Add(One, eps))
(* pixel coordinate of fraction f of an edge of length len with npix pixels: pixels are numbered from 1,
   the middle of the chip is at (npix + 1) / 2 *)
ChipCoord(f, len, npix) == Add(Div(Mul(Sub(f, Q(1, 2)), len), AcisPix), Add(Div(I(npix), I(2)), Q(1, 2)))
FocalXY(X) == LET d == Mul(Sub(X[1], AcisFocal), AcisAngle) IN << Div(X[2], d), Div(X[3], d) >>
DetXY(X) == LET f == FocalXY(X) IN << Sub(AcisZero, f[1]), Add(AcisZero, f[2]) >>
SkyXY(X, roll) == LET d == DetXY(X)
                      a == Sub(d[1], AcisZero)
                      b == Sub(d[2], AcisZero)
                  IN << Add(AcisZero, Add(Mul(a, Cos(roll)), Mul(b, Sin(roll)))),
                        Add(AcisZero, Sub(Mul(b, Cos(roll)), Mul(a, Sin(roll)))) >>
=============================================================================
