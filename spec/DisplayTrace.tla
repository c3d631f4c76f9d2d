----------------------------- MODULE DisplayTrace -----------------------------
(*  strip:  n1, n2 corners of the outlines, same (points kept as given), tri;        *)
(*          ro, ri, pts, yz: regular outlines, points in the plane, corners (or none) *)
(*  combine: parts, xyz, tri                                                          *)
(*  hole:   placement M, how, of, inner, ri, lo, hi (in units of the half size),      *)
(*          xyz, tri, pts (sampled points in the plane, local coordinates)            *)
(*  look:   own, geo, has: start of a history; set/del/geom: changes; get: look-up    *)
(*  dispatch: shapes, known, set (display and shape are there), called, warned, same  *)
(*  assembly: tree, known, names exported, what (output)                              *)
(*  surface: geom "cylinder"/"torus", M, one, two: coordinates or limits, got         *)
(*  faces:  n1, n2, pts (points of surface in mm, row by row), out (written), idx     *)
(*  box:    M, half, out, idx;  jbox: M, pos, pars                                    *)
(*  jtorus: M, R, r, th, ph, pos, args                                                *)
(*  rays:   data, scalar, lines [pts, count, col];  jrays: data, scalar, pos, color    *)
(*  color, hex, file, still                                                           *)
EXTENDS Display, TraceBase
TraceSt0 == [own |-> [x \in {} |-> ""], geo |-> [x \in {} |-> ""], has |-> FALSE]
Force(f) == SubSeq(f, 1, Len(f))
Chk(s, ck) == [st |-> s, ck |-> ck]
(* regular outlines with corners far enough apart that the strip does not fold over *)
Aligned(n1, n2, ro, ri) ==
    \/ n1 = n2 /\ Lt(ri, ro)
    \/ LET c == Cos(Add(Div(Mul(I(2), Pi), I(n1)), Div(Mul(I(2), Pi), I(n2)))) IN n1 > 4 /\ n2 > 4 /\ Lt(Div(ri, ro), Mul(Q(95, 100), c))
PolyExp(e, p) ==
    LET r == Sqrt(Add(Sq(p[1]), Sq(p[2])))
        io == Mul(e.ro, Cos(Div(Pi, I(e.n1))))
        ii == Mul(e.ri, Cos(Div(Pi, I(e.n2))))
    IN IF Gt(r, e.ro) \/ Lt(r, ii) THEN 0 ELSE IF Lt(r, io) /\ Gt(r, e.ri) THEN 1 ELSE -1
Agree(yz, tri, p, x) == x = -1 \/ LET c == Covering(yz, tri, p) IN c = -1 \/ c = x
(* local coordinates of a point in units of the half size of the plate, and distance from the plane *)
Local(M, X) == LET d == VSub(X, TransPart(M)) IN
    << Div(Dot(d, Col3(M, 2)), Norm2(Col3(M, 2))), Div(Dot(d, Col3(M, 3)), Norm2(Col3(M, 3))), Div(Dot(d, Col3(M, 1)), Norm(Col3(M, 1))) >>
HoleCk(e) ==
    LET L == Force([i \in DOMAIN e.xyz |-> Local(e.M, e.xyz[i])])
        k == e.how \o ": "
    IN << <<k \o "corners are in the plane of the element", \A i \in DOMAIN L : Near(L[i][3], Zero, Mul(E9, Add(One, Norm(Col3(e.M, 2)))))>>,
          <<k \o "indices refer to points", Indexed(e.tri, Len(e.xyz))>>,
          <<k \o "opening free, rest of the frame covered once", Indexed(e.tri, Len(e.xyz)) => \A i \in DOMAIN e.pts : Agree(L, e.tri, e.pts[i], Expected(e, e.pts[i]))>> >>
Rounded(p, q) == \A i \in 1..3 : Near(q[i], Div(p[i], I(1000)), Add(Q(5, 100000), E10))
(* boxes: signs of the corner nearest to a written point *)
Vals(half, ax) == IF half = << >> \/ half[1] # ax THEN { -1, 1 } ELSE IF half[2] = 1 THEN { -1, 0 } ELSE { 0, 1 }
Corners(half) == { << x, y, z >> : x \in Vals(half, 1), y \in Vals(half, 2), z \in Vals(half, 3) }
AtCorner(M, c) == AppPt(M, << I(c[1]), I(c[2]), I(c[3]) >>)
BoxCk(e) ==
    LET C == Corners(e.half)
        cs == Force([i \in DOMAIN e.out |-> LET S == { c \in C : Rounded(AtCorner(e.M, c), e.out[i]) } IN IF Cardinality(S) = 1 THEN CHOOSE c \in S : TRUE ELSE << 9, 9, 9 >>])
        f == e.idx
        ok == \A i \in DOMAIN f : Len(f[i]) = 4 /\ \A j \in 1..4 : f[i][j] \in 0..(Len(cs) - 1)
        Common(q) == { a \in 1..3 : \A j \in 2..4 : cs[q[j] + 1][a] = cs[q[1] + 1][a] }
        Diff(u, v) == Cardinality({ a \in 1..3 : u[a] # v[a] })
    IN << <<"box: written points are its corners", Len(e.out) = 8 /\ { cs[i] : i \in DOMAIN cs } = C>>,
          <<"box: six faces that enclose it", ok /\ Len(f) = 6
              /\ (\A i \in DOMAIN f : Cardinality(Common(f[i])) = 1 /\ \A j \in 1..4 : Diff(cs[f[i][j] + 1], cs[f[i][(j % 4) + 1] + 1]) = 1)
              /\ Cardinality({ << CHOOSE a \in Common(f[i]) : TRUE, cs[f[i][1] + 1][CHOOSE a \in Common(f[i]) : TRUE] >> : i \in DOMAIN f }) = 6>> >>
(* surfaces *)
Lin(lim, n, i) == IF n = 1 THEN lim[1] ELSE Add(lim[1], Div(Mul(Sub(lim[2], lim[1]), I(i - 1)), I(n - 1)))
Coo(c, n, i) == IF Len(c.v) = n /\ c.given THEN c.v[i] ELSE Lin(c.v, n, i)
SurfPoint(e, n1, n2, i, j) ==
    IF e.geom = "cylinder"
    THEN CylPoint(e.M, Coo(e.one, n1, i), IF e.two.given THEN Div(e.two.v[j], Norm(Col3(e.M, 3))) ELSE Coo(e.two, n2, j))
    ELSE TorusPoint(e.M, e.R, e.r, Coo(e.one, n1, i), Coo(e.two, n2, j))
SurfCk(e) ==
    LET n1 == Len(e.got)  n2 == Len(e.got[1])
        tol(p) == Mul(E9, Add(One, MaxAbs(p)))
    IN << <<e.geom \o ": grid has the number of points asked for", (e.one.given => n1 = Len(e.one.v)) /\ (e.two.given => n2 = Len(e.two.v)) /\ n1 > 1 /\ n2 > 1>>,
          <<e.geom \o ": points are on the surface, in the range", \A i \in 1..n1 : \A j \in 1..n2 :
              (e.one.given => n1 = Len(e.one.v)) /\ (e.two.given => n2 = Len(e.two.v)) /\ e.got[i][j][4] = One
              /\ LET p == SurfPoint(e, n1, n2, i, j) IN VNear(XYZ(e.got[i][j]), p, tol(p))>> >>
FacesCk(e) ==
    LET ok == \A i \in DOMAIN e.idx : Len(e.idx[i]) = 4 /\ \A j \in 1..4 : e.idx[i][j] \in 0..(e.n1 * e.n2 - 1)
    IN << <<"surface: written points are the points of the surface in m", Len(e.out) = e.n1 * e.n2 /\ \A i \in DOMAIN e.out : Rounded(e.pts[i], e.out[i])>>,
          <<"surface: every cell of the grid is drawn once", ok /\ Len(e.idx) = (e.n1 - 1) * (e.n2 - 1)
              /\ { { e.idx[i][j] : j \in 1..4 } : i \in DOMAIN e.idx } = Cells(e.n1, e.n2)
              /\ \A i \in DOMAIN e.idx : \A j \in 1..4 : GridNeighbours(e.idx[i][j], e.idx[i][(j % 4) + 1], e.n2)>> >>
Flat(M) == << M[1][1], M[2][1], M[3][1], M[4][1], M[1][2], M[2][2], M[3][2], M[4][2],
              M[1][3], M[2][3], M[3][3], M[4][3], M[1][4], M[2][4], M[3][4], M[4][4] >>
(* the torus the browser makes of the arguments: u runs around its axis (local z), v around the tube *)
Browser(e, a, c) ==
    LET u == Add(e.args[6], Mul(a, e.args[5]))
        v == Add(e.args[8], Mul(c, e.args[7]))
        w == Add(e.args[1], Mul(e.args[2], Cos(v)))
    IN << Mul(w, Cos(u)), Mul(w, Sin(u)), Mul(e.args[2], Sin(v)) >>
JTorusCk(e) ==
    << <<"torus in json: placement by columns", e.pos = Flat(e.M)>>,
       <<"torus in json: radii", e.args[1] = e.R /\ e.args[2] = e.r>>,
       <<"torus in json: the browser shows the asked part of the surface",
         \A a \in 0..2 : \A c \in 0..2 :
            LET p == Browser(e, Q(a, 2), Q(c, 2)) IN
            /\ OnTorus(e.R, e.r, p, Mul(E8, Add(e.R, e.r)))
            /\ (a = 1 /\ c = 1) =>
               VNear(p, TorusPoint(Id4, e.R, e.r, Div(Add(e.th[1], e.th[2]), I(2)), Div(Add(e.ph[1], e.ph[2]), I(2))), Mul(E8, Add(e.R, e.r)))>> >>
(* rays: lines is a sequence of groups [pts, counts, col] *)
RECURSIVE Chop(_, _)
Chop(pts, n) == IF pts = << >> THEN << >> ELSE << SubSeq(pts, 1, n) >> \o Chop(SubSeq(pts, n + 1, Len(pts)), n)
RaysCk(e) ==
    LET N == Len(e.data[1])
        whole == \A g \in DOMAIN e.lines : Len(e.lines[g].pts) = N * Len(e.lines[g].counts) /\ \A j \in DOMAIN e.lines[g].counts : e.lines[g].counts[j] = N
        IsRay(i, r) == \A j \in 1..N : Rounded(e.data[i][j], r[j])
        Of(g) == IF whole THEN Chop(e.lines[g].pts, N) ELSE << >>
        gr == Force([g \in DOMAIN e.lines |-> Of(g)])
        In(i) == { g \in DOMAIN gr : \E j \in DOMAIN gr[g] : IsRay(i, gr[g][j]) }
        total == LET RECURSIVE T(_) T(g) == IF g > Len(gr) THEN 0 ELSE Len(gr[g]) + T(g + 1) IN T(1)
        where == Force([i \in DOMAIN e.data |-> In(i)])
    IN << <<"rays: every ray is drawn once, with all its points", whole /\ total = Len(e.data) /\ \A i \in DOMAIN e.data : Cardinality(where[i]) = 1>>,
          <<"rays: same color if and only if same value", \A i \in DOMAIN e.data : \A j \in DOMAIN e.data : (where[i] = where[j]) <=> (e.scalar[i] = e.scalar[j])>>,
          <<"rays: color is the one of the value", \A i \in DOMAIN e.data : \A g \in where[i] : \A c \in 1..3 : Near(e.lines[g].col[c], e.want[i][c], Q(6, 1000))>> >>
JRaysCk(e) ==
    LET N == Len(e.data[1])
        at(row, j) == << row[3 * j - 2], row[3 * j - 1], row[3 * j] >>
        same(i, j, m, q) == at(e.color[i], j) = at(e.color[m], q)
        val(i, j) == IF e.perpoint THEN e.scalar[i][j] ELSE e.scalar[i][1]
        idx == { << i, j >> : i \in DOMAIN e.data, j \in 1..N }
    IN << <<"rays in json: number, points and order kept", e.n = Len(e.data) /\ Len(e.pos) = e.n /\ \A i \in DOMAIN e.data : Len(e.pos[i]) = 3 * N /\ \A j \in 1..N : at(e.pos[i], j) = e.data[i][j]>>,
          <<"rays in json: a color for every point", Len(e.color) = e.n /\ \A i \in DOMAIN e.color : Len(e.color[i]) = 3 * N>>,
          <<"rays in json: color is the one of the value", Len(e.color) = e.n /\ \A i \in DOMAIN e.color : Len(e.color[i]) = 3 * N /\ \A j \in 1..N : VNear(at(e.color[i], j), e.want[i][j], E9)>> >>
ColorCk(e) ==
    LET want == CASE e.how = "name" -> Named[e.name]
                  [] e.how = "hex" -> << Q(Channel(e.digits[1]), 255), Q(Channel(e.digits[2]), 255), Q(Channel(e.digits[3]), 255) >>
                  [] e.how = "grey" -> << e.v[1], e.v[1], e.v[1] >>
                  [] e.how = "none" -> << One, One, One >>
                  [] OTHER -> << e.v[1], e.v[2], e.v[3] >>
    IN << <<"color given as " \o e.how, VNear(e.got, want, E10)>> >>
HexCk(e) ==
    LET ch(i) == I(Channel(e.digits[i]))
    IN IF e.how = "int" THEN << <<"hexadecimal of whole numbers", e.prefix = "0x" /\ \A i \in 1..3 : ch(i) = e.v[i]>> >>
       ELSE IF \A i \in 1..3 : Bit8(e.v[i]) THEN << <<"hexadecimal of 8-bit values", e.prefix = "0x" /\ \A i \in 1..3 : Near(Div(ch(i), I(255)), e.v[i], E9)>> >>
       ELSE << <<"hexadecimal of values between", e.prefix = "0x" /\ \A i \in 1..3 : Near(Div(ch(i), I(255)), e.v[i], Add(Q(1, 255), E9))>> >>
Without(f, key) == [x \in (DOMAIN f) \ {key} |-> f[x]]
TraceStep(s, e) ==
  CASE e.k = "strip" -> Chk(s, << <<"frame: points of both outlines, in order", e.same>>,
                                  <<"frame: triangles close the gap between the outlines", Frame(e.tri, e.n1, e.n2)>> >> \o
        (IF e.yz # << >> /\ Aligned(e.n1, e.n2, e.ro, e.ri)
         THEN << <<"frame: covered once, hole free", Indexed(e.tri, Len(e.yz)) /\ \A i \in DOMAIN e.pts : Agree(e.yz, e.tri, e.pts[i], PolyExp(e, e.pts[i]))>> >> ELSE << >>))
    [] e.k = "combine" -> Chk(s, << <<"combined shapes keep their points", e.xyz = JoinPts(e.parts, 1)>>,
                                    <<"combined shapes keep their triangles", e.tri = JoinTri(e.parts, 1, 0)>> >>)
    [] e.k = "hole" -> Chk(s, HoleCk(e))
    [] e.k = "look" -> [st |-> [own |-> e.own, geo |-> e.geo, has |-> e.has], ck |-> << <<"display settings of a new element are its own", e.fresh>> >>]
    [] e.k = "set" -> Chk([s EXCEPT !.own = (e.key :> e.val) @@ @], << >>)
    [] e.k = "del" -> Chk([s EXCEPT !.own = Without(@, e.key)], << >>)
    [] e.k = "geom" -> Chk([s EXCEPT !.geo = (e.key :> e.val) @@ @], << >>)
    [] e.k = "get" -> LET v == Lookup(s.own, s.has, s.geo, e.key) IN
         Chk(s, << <<"setting, or else the geometry", IF v = Missing /\ e.how = "get" THEN e.got = e.default ELSE e.got = v>> >>)
    [] e.k = "geocheck" -> Chk(s, << <<"geometry is not changed by display settings", \A x \in DOMAIN s.geo : x \in DOMAIN e.geo /\ e.geo[x] = s.geo[x]>> >>)
    [] e.k = "dispatch" -> LET c == IF e.set THEN Chosen(e.shapes, { e.known[i] : i \in DOMAIN e.known }, 1) ELSE "unknown" IN
         Chk(s, << <<"first shape of the list that can be drawn", e.called = IF c \in { "unknown", "None" } THEN "nothing" ELSE c>>,
                   <<"warned if and only if nothing fits", e.warned = (c = "unknown")>>,
                   <<"element, settings and output of the routine are passed through", e.same>> >>)
    [] e.k = "assembly" -> Chk(s, << <<e.what \o ": every part that can be drawn, once, in order", e.names = Exported(e.tree, { e.known[i] : i \in DOMAIN e.known })>> >>)
    [] e.k = "surface" -> Chk(s, SurfCk(e))
    [] e.k = "faces" -> Chk(s, FacesCk(e))
    [] e.k = "box" -> Chk(s, BoxCk(e))
    [] e.k = "jbox" -> Chk(s, << <<"box in json: placement by columns", e.pos = Flat(e.M)>>, <<"box in json: sides", e.pars = << 2, 2, 2 >> >> >>)
    [] e.k = "jtri" -> Chk(s, << <<"triangles in json as triangulated", e.pos = e.xyz /\ e.faces = e.tri>> >>)
    [] e.k = "xtri" -> Chk(s, << <<"triangles in x3d as triangulated", e.faces = e.tri /\ Len(e.pos) = Len(e.xyz) /\ \A i \in DOMAIN e.pos : Rounded(e.xyz[i], e.pos[i])>> >>)
    [] e.k = "jtorus" -> Chk(s, JTorusCk(e))
    [] e.k = "rays" -> Chk(s, RaysCk(e))
    [] e.k = "jrays" -> Chk(s, JRaysCk(e))
    [] e.k = "color" -> Chk(s, ColorCk(e))
    [] e.k = "hex" -> Chk(s, HexCk(e))
    [] e.k = "file" -> Chk(s, << <<"file holds all parts as exported", e.out = e.in>>, <<"file holds the information of the photon list", e.infoout = e.infoin>> >>)
    [] e.k = "text" -> Chk(s, << <<"text for three.js: " \o e.what, e.done>> >>)
    [] e.k = "still" -> Chk(s, << <<"drawing changes no placement", e.before = e.after>>, <<"drawing changes no other setting", e.other>> >>)
=============================================================================
