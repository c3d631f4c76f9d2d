---------------------------- MODULE RowlandTrace ----------------------------
(*  torus:  angles th, ph -> points p, normals nrm; points -> angles th2, ph2,   *)
(*          their points p2 and normals nrm2                                     *)
(*  quart:  value of the equation at points x                                    *)
(*  hit:    line o + k v meets the torus in p (in: frame of the torus)           *)
(*  grid, ring, mesh: layouts; el: placement matrices of the elements            *)
(*  tilt, pair: designs                                                          *)
(*  shell:  radii (percentiles pc) at distance x of the photons of a shell       *)
EXTENDS Rowland, TraceBase
TraceSt0 == [n |-> 0]
Force(f) == SubSeq(f, 1, Len(f))
Rng(v) == DOMAIN v
Out3(M, v) == AppVec(M, v)
Size(e) == Add(e.T.R, e.T.r)
ElC(e, i) == Col3(e.el[i], 4)
Loc(e) == Force([i \in DOMAIN e.el |-> ToLocal(e.T.M, ElC(e, i))])
(* offset q - (0, y, z) is along the axis a (torus frame) *)
OnLine(q, y, z, a, tol) == LET c == Cross(VSub(q, << Zero, y, z >>), a) IN Le(MaxAbs(c), tol)
WantN(e, i, q) ==
    CASE e.nspec.kind = "inward" -> VNeg(Out3(e.T.M, NormalAt(e.T.R, e.T.r, q)))
      [] e.nspec.kind = "point" -> VSub(ElC(e, i), e.nspec.v)
      [] e.nspec.kind = "dir" -> e.nspec.v
      [] e.nspec.kind = "list" -> e.nspec.v[i]
WantE(e, i) ==
    CASE e.pspec.kind = "axis" -> Out3(e.T.M, << Zero, One, Zero >>)
      [] e.pspec.kind = "point" -> VSub(ElC(e, i), e.pspec.v)
      [] e.pspec.kind = "dir" -> e.pspec.v
      [] e.pspec.kind = "list" -> e.pspec.v[i]
FacingOK(e, q) == \A i \in DOMAIN e.el :
    LET n == WantN(e, i, q[i])  x == WantE(e, i) IN
    Ge(Norm(Cross(Unit(n), Unit(x))), E3) =>
      LET f == Facing(n, x) IN
      /\ VNear(Col3(e.el[i], 1), f[1], E6) /\ VNear(Col3(e.el[i], 2), f[2], E5) /\ VNear(Col3(e.el[i], 3), f[3], E5)
Common(e, q) ==
    << <<"every element on the torus", \A i \in DOMAIN q : OnTorus(e.T.R, e.T.r, q[i], E7)>>,
       <<"elements face as requested", FacingOK(e, q)>>,
       <<"elements numbered one by one", e.ids = [i \in DOMAIN e.el |-> e.first + i - 1]>>,
       <<"elements do not overlap", \A i \in DOMAIN q : \A j \in DOMAIN q : i < j =>
           Apart(<< q[i][2], q[i][3] >>, << q[j][2], q[j][3] >>, e.d[1], e.d[2], Mul(E7, Size(e)))>> >>
Member(x, s) == \E i \in DOMAIN s : s[i] = x
Pass(t, p, tol) == OnTorus(t.R, t.r, ToLocal(t.M, p), tol)
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> \/ Le(x, Head(s)) THEN << x >> \o s ELSE << Head(s) >> \o Insert(Tail(s), x)
RECURSIVE Sorted(_, _)
Sorted(s, i) == IF i > Len(s) THEN <<>> ELSE Insert(Sorted(s, i + 1), s[i])
(* value at rank x (between 0 and n - 1), interpolated *)
Ranked(s, x) == LinInterp(Force([i \in DOMAIN s |-> I(i - 1)]), s, x)
TraceStep(s, e) ==
  CASE e.k = "torus" ->
       LET R == e.T.R  r == e.T.r  M == e.T.M  S == Mul(E9, Add(Size(e), MaxAbs(Col3(M, 4))))
           q == Force([i \in DOMAIN e.th |-> TorusPoint(R, r, e.th[i], e.ph[i])])
           sing(i) == Le(Hyp(q[i][1], q[i][3]), Mul(E3, Size(e)))
       IN [st |-> s, ck |->
          << <<"points satisfy the torus equation", \A i \in Rng(q) : VNear(XYZ(e.p[i]), AppPt(M, q[i]), S) /\ e.p[i][4] = One
                  /\ OnTorus(R, r, ToLocal(M, XYZ(e.p[i])), E8)>>,
             <<"normals along the gradient, outward", \A i \in Rng(q) :
                  VNear(XYZ(e.nrm[i]), Out3(M, TorusNormal(e.th[i], e.ph[i])), E9) /\ e.nrm[i][4] = Zero>>,
             <<"normals of points", \A i \in Rng(q) : ~sing(i) =>
                  VNear(XYZ(e.nrm2[i]), Out3(M, NormalAt(R, r, q[i])), E6)>>,
             <<"angles of points lead back to the points", \A i \in Rng(q) : ~(e.nan /\ sing(i)) =>
                  VNear(XYZ(e.p2[i]), XYZ(e.p[i]), Mul(I(1000), S))>>,
             <<"angle on the circle", \A i \in Rng(q) : ~sing(i) =>
                  (Near(Cos(e.th2[i]), Cos(e.th[i]), E6) /\ Near(Sin(e.th2[i]), Sin(e.th[i]), E6))>>,
             <<"points on the symmetry axis have no angle", e.nan => \A i \in Rng(q) : e.axis[i] => IsNaN(e.ph2[i])>> >>]
    [] e.k = "same" -> [st |-> s, ck |-> << <<"grid of points of the surface", e.ok>> >>]
    [] e.k = "quart" -> [st |-> s, ck |->
          << <<"value of the torus equation", \A i \in Rng(e.x) :
                LET q == IF e.local THEN e.x[i] ELSE ToLocal(e.T.M, e.x[i])
                    big == Sq(Add(Norm2(q), Add(Sq(e.T.R), Sq(e.T.r)))) IN
                Le(Abs(Sub(e.v[i], Quartic(e.T.R, e.T.r, q))), Mul(E9, big))>> >>]
    [] e.k = "hit" ->
       LET q == IF e.local THEN e.p ELSE ToLocal(e.T.M, e.p)
           t == VSub(e.p, e.o)
       IN [st |-> s, ck |->
          << <<"solved point on the torus", OnTorus(e.T.R, e.T.r, q, E7)>>,
             <<"solved point on the line", Le(Norm(Cross(t, Unit(e.v))), Mul(E9, Add(Size(e), MaxAbs(e.o))))>> >>]
    [] e.k = "grid" ->
       LET q == Loc(e)
           tol == Mul(E7, Size(e))
           Y(i) == Spread(e.y[1], e.y[2], e.ny, e.d[1], i)
           Z(j) == Spread(e.z[1], e.z[2], e.nz, e.d[2], j)
           straight == e.axis[2] = Zero /\ e.axis[3] = Zero
       IN [st |-> s, ck |-> Common(IF straight THEN e ELSE [e EXCEPT !.d = << Zero, Zero >>], q) \o
          << <<"as many rows as cover the range", /\ IsCeil(e.ny, Div(Sub(e.y[2], e.y[1]), e.d[1]), E9)
                                                  /\ IsCeil(e.nz, Div(Sub(e.z[2], e.z[1]), e.d[2]), E9)
                                                  /\ Len(q) = e.ny * e.nz>>,
             <<"centres in the range, one per place of the grid", \A i \in 1..e.ny : \A j \in 1..e.nz :
                Cardinality({ k \in DOMAIN q : OnLine(q[k], Y(i), Z(j), e.axis, tol) }) = 1>> >>]
    [] e.k = "ring" ->
       LET q == Loc(e)
           tol == Mul(E7, Size(e))
           nr(b) == e.nr[b]
           Rad(b, i) == Spread(e.rad[2 * b - 1], e.rad[2 * b], nr(b), e.d[1], i)
           w(rd) == Div(e.d[2], rd)
           x(rd) == Div(Mul(Sub(rd, Div(e.d[1], I(2))), e.F), e.d[2])
           N(b, i) == e.na[b][i]
           bd == Borders(e.f0, Add(e.f0, e.F))
           Ang(b, i, k) == IF e.single THEN e.f0 ELSE ArcCentre(e.f0, e.F, N(b, i), w(Rad(b, i)), k)
           At(b, i, k) == LET a == Ang(b, i, k) IN << Mul(Rad(b, i), Cos(a)), Mul(Rad(b, i), Sin(a)) >>
           (* known finding: built with angles from the z axis and elements too narrow by 2 pi when spread over the arc *)
           AngK(b, i, k) == IF e.single THEN e.f0
                            ELSE ArcCentre(e.f0, e.F, N(b, i), Div(w(Rad(b, i)), Mul(I(2), Pi)), k)
           AtK(b, i, k) == LET a == AngK(b, i, k) IN << Mul(Rad(b, i), Sin(a)), Mul(Rad(b, i), Cos(a)) >>
           Layout(A(_, _, _)) ==
               /\ Len(q) = e.total
               /\ \A b \in DOMAIN e.nr : \A i \in 1..nr(b) : \A k \in 1..N(b, i) : LET a == A(b, i, k) IN
                    Cardinality({ j \in DOMAIN q : Near(q[j][2], a[1], tol) /\ Near(q[j][3], a[2], tol) }) = 1
       IN [st |-> s, ck |-> Common([e EXCEPT !.d = << Zero, Zero >>], q) \o
          << <<"as many radii as cover the range", \A b \in DOMAIN e.nr : IsCeil(nr(b), Div(Sub(e.rad[2 * b], e.rad[2 * b - 1]), e.d[1]), E9)>>,
             <<"as many elements as fit on the arc", e.single \/ \A b \in DOMAIN e.nr : \A i \in 1..nr(b) : IsFloor(N(b, i), x(Rad(b, i)), E9)>>,
             <<"evenly over the arc, from the y axis counterclockwise",
               Layout(At)>>,
             <<"evenly over the arc, in the documented or the known other way", Layout(At) \/ Layout(AtK)>>,
             <<"elements inside of the arc", e.single \/ \A j \in DOMAIN q :
                LET rd == Hyp(q[j][2], q[j][3])  h == Div(w(rd), I(2))  u == << Div(q[j][2], rd), Div(q[j][3], rd) >>
                    c == Cos(h)  sn == Sin(h)
                    left == << Sub(Mul(c, u[1]), Mul(sn, u[2])), Add(Mul(sn, u[1]), Mul(c, u[2])) >>
                    right == << Add(Mul(c, u[1]), Mul(sn, u[2])), Sub(Mul(c, u[2]), Mul(sn, u[1])) >>
                IN  InAngles(bd, left, E6) /\ InAngles(bd, right, E6)>>,
             <<"neighbours on a ring do not overlap", \A i \in DOMAIN q : \A j \in DOMAIN q : i < j =>
                LET a == Hyp(q[i][2], q[i][3])  b == Hyp(q[j][2], q[j][3]) IN
                (Near(a, b, tol) /\ Le(Mul(I(3), e.d[2]), a)) =>
                  Le(Div(Add(Mul(q[i][2], q[j][2]), Mul(q[i][3], q[j][3])), Mul(a, b)), Add(Cos(w(a)), E8))>>,
             <<"radii at least one element apart", \A i \in DOMAIN q : \A j \in DOMAIN q :
                LET a == Hyp(q[i][2], q[i][3])  b == Hyp(q[j][2], q[j][3]) IN
                (e.single => i = j \/ ~Near(a, b, tol)) /\
                (Len(e.nr) = 1 => (Near(a, b, tol) \/ Ge(Abs(Sub(a, b)), Sub(e.d[1], tol))))>> >>]
    [] e.k = "mesh" ->
       LET q == Loc(e)
           tol == Mul(E7, Size(e))
           half == Div(Mul(I(e.ny), e.d[1]), I(2))
           Y(i) == Add(Opp(half), Mul(e.d[1], I(i - 1)))
           zo(y) == IF Ge(Abs(y), e.rad[2]) THEN Zero ELSE Sqrt(Sub(Sq(e.rad[2]), Sq(y)))
           zi(y) == IF Ge(Abs(y), e.rad[1]) THEN Zero ELSE Sqrt(Sub(Sq(e.rad[1]), Sq(y)))
           In(i) == { k \in DOMAIN q : Near(q[k][2], Y(i), tol) }
           whole(y, n) == IsCeil(n, Div(Mul(I(2), zo(y)), e.d[2]), E9)
           split(y, n) == n % 2 = 0 /\ IsCeil(n \div 2, Div(Sub(zo(y), zi(y)), e.d[2]), E9)
           cnt1(y, n) == IF Near(Abs(y), e.rad[2], tol) THEN n = 1 \/ whole(y, n)
                         ELSE IF Gt(Abs(y), e.rad[2]) THEN n = 1
                         ELSE IF Near(Abs(y), e.rad[1], tol) THEN whole(y, n) \/ split(y, n)
                         ELSE IF Gt(Abs(y), e.rad[1]) THEN whole(y, n) ELSE split(y, n)
       IN [st |-> s, ck |-> Common(e, q) \o
          << <<"rows across the whole ring", /\ IsCeil(e.ny, Div(Mul(I(2), e.rad[2]), e.d[1]), E9)
                 /\ \A k \in DOMAIN q : \E i \in 1..e.ny : k \in In(i)>>,
             <<"as many elements per row as fill the ring", \A i \in 1..e.ny : cnt1(Y(i), Cardinality(In(i)))>>,
             <<"centres at most one element outside of the ring", \A k \in DOMAIN q :
                LET y == q[k][2]  z == Abs(q[k][3]) IN
                /\ Le(Abs(y), Add(e.rad[2], e.d[1])) /\ Le(z, Add(zo(y), Add(e.d[2], tol))) /\ Ge(z, Sub(zi(y), Add(e.d[2], tol)))>> >>]
    [] e.k = "tilt" ->
       LET t == [R |-> e.R, r |-> e.r, M |-> e.M]
           cat == << e.f, Zero, Zero >>
           ax == Col3(e.M, 2)
           c == Col3(e.M, 4)
           C == VAdd(c, VScale(e.R, Col3(e.M, 1)))
           hinge == VScale(Mul(I(2), Dot(C, ax)), ax)
           tol == Mul(E9, e.f)
       IN [st |-> s, ck |->
          << <<"tilted torus through focus and on-axis grating", Pass(t, cat, E9) /\ Pass(t, V0, E9)>>,
             <<"line from the grating to the centre of the circle at the angle alpha", 
                Near(Dot(Unit(VSub(C, cat)), << Opp(One), Zero, Zero >>), Cos(e.alpha), E9) /\ Near(C[2], Mul(Div(e.f, I(2)), Div(Sin(e.alpha), Cos(e.alpha))), tol)>>,
             <<"symmetry axis through focus and hinge", Le(Norm(Cross(c, ax)), tol)
                /\ Near(Norm(VSub(hinge, C)), e.r, tol)
                /\ Near(Dot(Unit(VSub(hinge, cat)), << Opp(One), Zero, Zero >>), Cos(e.beta), E8)>>,
             <<"rigid placement", Near(Det3(e.M), One, E9) /\ Near(Dot(Col3(e.M, 1), Col3(e.M, 2)), Zero, E9) /\ IsUnit(Col3(e.M, 1), E9) /\ IsUnit(ax, E9)>> >>]
    [] e.k = "pair" -> [st |-> s, ck |->
          << <<"channel tori through focus, grating and focus of the other channel", \A i \in DOMAIN e.ch :
                LET c == e.ch[i]  o == c.shift IN
                /\ Pass(c.T, o, E9) /\ Pass(c.T, VAdd(o, << e.f, Zero, Zero >>), E9)
                /\ Pass(c.T, VAdd(o, << Zero, c.other, Zero >>), E9)
                /\ Near(c.T.R, e.R, E9)>>,
             <<"optical axis of each channel", \A i \in DOMAIN e.ch : VNear(e.ch[i].optax, e.ch[i].want, Mul(E9, e.f))>>,
             <<"detector torus through both optical axes", e.det # <<>> =>
                /\ Pass(e.det[1], << Zero, Div(e.dBF, I(2)), Zero >>, E9)
                /\ Pass(e.det[1], << Zero, Opp(Div(e.dBF, I(2))), Zero >>, E9)>> >>]
    [] e.k = "shell" ->
       LET sel == SelectSeq(Force([i \in DOMAIN e.pos |-> i]), LAMBDA i : Gt(e.prob[i], Zero) /\ e.shell[i] = e.want)
           rad(i) == LET t == Div(Sub(e.x, e.pos[i][1]), e.dir[i][1]) IN
                     Hyp(Add(e.pos[i][2], Mul(t, e.dir[i][2])), Add(e.pos[i][3], Mul(t, e.dir[i][3])))
           so == Sorted(Force([j \in DOMAIN sel |-> rad(sel[j])]), 1)
       IN [st |-> s, ck |->
          << <<"radii of the photons of a shell", \A j \in DOMAIN e.pc :
                Near(e.got[j], Ranked(so, Mul(Div(e.pc[j], I(100)), I(Len(so) - 1))), E8)>>,
             <<"photons unchanged", e.unchanged>> >>]
=============================================================================
