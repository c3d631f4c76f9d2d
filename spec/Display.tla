------------------------------ MODULE Display ------------------------------
(***************************************************************************)
(* Drawing: triangulated frames around openings, look-up of display        *)
(* settings, choice of the routine that draws an element, export of        *)
(* assemblies, colours.                                                    *)
(* Triangles are triples of point numbers counted from 0.                  *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, TLC
Seqn(f) == SubSeq(f, 1, Len(f))
(* --- triangulations --- *)
DirEdges(tri) == UNION { { << tri[i][1], tri[i][2] >>, << tri[i][2], tri[i][3] >>, << tri[i][3], tri[i][1] >> } : i \in DOMAIN tri }
Ring(first, n) == { << first + i, first + ((i + 1) % n) >> : i \in 0..(n - 1) }
Rev(E) == { << x[2], x[1] >> : x \in E }
Indexed(tri, n) == \A i \in DOMAIN tri : \A j \in 1..3 : tri[i][j] \in 0..(n - 1)
(* a strip of triangles that fills the frame between an outer ring of no points and an inner one of ni: *)
(* every side is either on one of the rings, where there is nothing behind it, or shared by two triangles *)
Frame(tri, no, ni) ==
    LET E == DirEdges(tri)
        B == Ring(0, no) \cup Ring(no, ni)
    IN  /\ Len(tri) = no + ni
        /\ Indexed(tri, no + ni)
        /\ Cardinality(E) = 3 * Len(tri)
        /\ \A x \in E : (x \in B \/ << x[2], x[1] >> \in B) # (<< x[2], x[1] >> \in E)
        /\ \A x \in B : x \in E \/ << x[2], x[1] >> \in E
        /\ \A i \in DOMAIN tri : Cardinality({ j \in 1..3 : tri[i][j] < no }) \in {1, 2}
(* parts: sequence of [xyz, tri]; points and triangles of all of them *)
RECURSIVE JoinPts(_, _), JoinTri(_, _, _)
JoinPts(parts, i) == IF i > Len(parts) THEN << >> ELSE parts[i].xyz \o JoinPts(parts, i + 1)
Shifted(tri, n) == [i \in DOMAIN tri |-> << tri[i][1] + n, tri[i][2] + n, tri[i][3] + n >>]
JoinTri(parts, i, n) == IF i > Len(parts) THEN << >>
                        ELSE Shifted(parts[i].tri, n) \o JoinTri(parts, i + 1, n + Len(parts[i].xyz))
(* how many triangles cover the point p = <<y, z>>; -1 if it is too close to a side to tell *)
Side(a, b, p) == Sub(Mul(Sub(b[1], a[1]), Sub(p[2], a[2])), Mul(Sub(b[2], a[2]), Sub(p[1], a[1])))
Where(t, p) ==       \* 1 inside, 0 outside, -1 undecided, for triangle t = <<a, b, c>>
    LET s1 == Side(t[1], t[2], p)  s2 == Side(t[2], t[3], p)  s3 == Side(t[3], t[1], p)
        pos == Gt(s1, E9) /\ Gt(s2, E9) /\ Gt(s3, E9)
        neg == Lt(s1, Opp(E9)) /\ Lt(s2, Opp(E9)) /\ Lt(s3, Opp(E9))
        out == (Gt(s1, E9) \/ Gt(s2, E9) \/ Gt(s3, E9)) /\ (Lt(s1, Opp(E9)) \/ Lt(s2, Opp(E9)) \/ Lt(s3, Opp(E9)))
    IN IF pos \/ neg THEN 1 ELSE IF out THEN 0 ELSE -1
Degenerate(t) == Le(Abs(Side(t[1], t[2], t[3])), E9)
Covering(yz, tri, p) ==
    LET W == [i \in DOMAIN tri |-> LET t == << yz[tri[i][1] + 1], yz[tri[i][2] + 1], yz[tri[i][3] + 1] >>
                                   IN IF Degenerate(t) THEN 0 ELSE Where(t, p)]
        w == Seqn(W)
    IN IF \E i \in DOMAIN w : w[i] = -1 THEN -1 ELSE Cardinality({ i \in DOMAIN w : w[i] = 1 })
(* --- look-up of settings: own: function key -> value; geo: function or the like of an element without geometry --- *)
Missing == "missing"
Lookup(own, has, geo, key) == IF key \in DOMAIN own THEN own[key]
                              ELSE IF has /\ key \in DOMAIN geo THEN geo[key] ELSE Missing
(* --- which of the shapes an element offers is drawn --- *)
RECURSIVE Chosen(_, _, _)
Chosen(shapes, known, i) ==
    IF i > Len(shapes) THEN "unknown"
    ELSE IF shapes[i] = "None" \/ shapes[i] \in known THEN shapes[i]
    ELSE Chosen(shapes, known, i + 1)
(* --- export of an assembly: t = [shapes, name, sub]; known: shapes the output can hold --- *)
RECURSIVE Exported(_, _), ExportAll(_, _, _)
Exported(t, known) == LET c == Chosen(t.shapes, known, 1)
                      IN IF c = "container" THEN ExportAll(t.sub, known, 1)
                         ELSE IF c = "None" \/ c = "unknown" THEN << >> ELSE << t.name >>
ExportAll(sub, known, i) == IF i > Len(sub) THEN << >> ELSE Exported(sub[i], known) \o ExportAll(sub, known, i + 1)
(* --- colours --- *)
Bit8(c) == \E k \in 0..255 : Near(c, Q(k, 255), E9)
HexOf == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
Digit(h) == CHOOSE n \in 0..15 : HexOf[n + 1] = h
Channel(h2) == 16 * Digit(h2[1]) + Digit(h2[2])       \* h2: two hexadecimal digits, e.g. << "f", "0" >>
Digits(n) == << HexOf[(n \div 16) + 1], HexOf[(n % 16) + 1] >>
RGB(a, b, c) == << Q(a, 255), Q(b, 255), Q(c, 255) >>
Named == ("white" :> RGB(255, 255, 255)) @@ ("w" :> RGB(255, 255, 255)) @@ ("black" :> RGB(0, 0, 0)) @@ ("k" :> RGB(0, 0, 0))
      @@ ("red" :> RGB(255, 0, 0)) @@ ("r" :> RGB(255, 0, 0)) @@ ("blue" :> RGB(0, 0, 255)) @@ ("lime" :> RGB(0, 255, 0))
      @@ ("orange" :> RGB(255, 165, 0)) @@ ("navy" :> RGB(0, 0, 128)) @@ ("gray" :> RGB(128, 128, 128)) @@ ("C0" :> RGB(31, 119, 180))
(* --- surfaces --- *)
CylPoint(M, phi, z) == AppPt(M, << Cos(phi), Sin(phi), z >>)
TorusPoint(M, R, r, th, phi) == LET a == Add(R, Mul(r, Cos(th))) IN AppPt(M, << Mul(a, Cos(phi)), Mul(r, Sin(th)), Mul(a, Sin(phi)) >>)
OnTorus(R, r, p, tol) == Near(Sqrt(Add(Sq(Sub(Sqrt(Add(Sq(p[1]), Sq(p[3]))), R)), Sq(p[2]))), r, tol)
(* faces of a grid of n1 x n2 points, numbered along the second index first *)
Cells(n1, n2) == { { i * n2 + j, i * n2 + j + 1, (i + 1) * n2 + j, (i + 1) * n2 + j + 1 } : i \in 0..(n1 - 2), j \in 0..(n2 - 2) }
GridNeighbours(a, b, n2) == \/ (a \div n2 = b \div n2 /\ (a - b) \in {1, -1})
                            \/ (a - b) \in {n2, -n2}
(* --- openings, in units of half the size of the plate --- *)
InArc(p, lo, hi) ==      \* -1: too close to the sides of the wedge to tell (lo, hi: angles, at most a full turn apart)
    LET w == Sub(hi, lo)
        r == Sqrt(Add(Sq(p[1]), Sq(p[2])))
        u == << Cos(lo), Sin(lo) >>
        v == << Cos(hi), Sin(hi) >>
        cu == Div(Sub(Mul(u[1], p[2]), Mul(u[2], p[1])), r)  du == Div(Add(Mul(u[1], p[1]), Mul(u[2], p[2])), r)
        cv == Div(Sub(Mul(v[1], p[2]), Mul(v[2], p[1])), r)  dv == Div(Add(Mul(v[1], p[1]), Mul(v[2], p[2])), r)
        near == (Gt(du, Zero) /\ Lt(Abs(cu), Q(75, 1000))) \/ (Gt(dv, Zero) /\ Lt(Abs(cv), Q(75, 1000)))
    IN IF Gt(w, Q(628, 100)) THEN 1
       ELSE IF Lt(r, Q(1, 100)) \/ near THEN -1
       ELSE IF Lt(w, Pi) THEN (IF Gt(cu, Zero) /\ Lt(cv, Zero) THEN 1 ELSE 0)
       ELSE (IF Lt(cu, Zero) /\ Gt(cv, Zero) THEN 0 ELSE 1)
Off(a, b) == Gt(Abs(Sub(a, b)), Mul(Q(2, 1000), b))      \* the outline is drawn with 90 corners
(* h: how ("square" / "circle"), of, inner (inner edge of the frame of the inner disk), ri, lo, hi *)
Expected(h, p) ==
    IF h.how = "square"
    THEN LET m == Max2(Abs(p[1]), Abs(p[2])) IN IF Off(m, One) /\ Off(m, h.of) THEN (IF Gt(m, One) /\ Lt(m, h.of) THEN 1 ELSE 0) ELSE -1
    ELSE LET r == Sqrt(Add(Sq(p[1]), Sq(p[2])))
             a == InArc(p, h.lo, h.hi)
         IN IF ~(Off(r, One) /\ Off(r, h.of) /\ (h.ri # Zero => Off(r, h.ri)) /\ (h.inner # Zero => Off(r, h.inner))) \/ a = -1 THEN -1
            ELSE IF Gt(r, h.of) THEN 0
            ELSE IF a = 0 \/ Gt(r, One) THEN 1
            ELSE IF Lt(r, h.ri) /\ Gt(r, h.inner) THEN 1 ELSE 0
=============================================================================
