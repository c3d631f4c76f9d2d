----------------------------- MODULE Placement -----------------------------
(* Where groups, their members and misalignments put an optical element.      *)
(*                                                                            *)
(* A group is a record                                                        *)
(*   pos  placement of the group            unc  misalignment of the group    *)
(*   sig  misalignment of each member       e    placement of each member     *)
(*   c    placement settings given for all members in common                  *)
(* All are affine 4x4 matrices without shear: shift * rotation * stretch.     *)
EXTENDS Vec
ColNorm(M, j) == Norm(Col3(M, j))
Shift(M)   == Transl(TransPart(M))
Stretch(M) == Diag4(<< ColNorm(M, 1), ColNorm(M, 2), ColNorm(M, 3) >>)
Rot(M)     == LET z == << ColNorm(M, 1), ColNorm(M, 2), ColNorm(M, 3) >>
                 row(i) == << Div(M[i][1], z[1]), Div(M[i][2], z[2]), Div(M[i][3], z[3]) >>
              IN Lin4(<< row(1), row(2), row(3) >>)
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 1 THEN s[1] ELSE MM(s[1], Prod(Tail(s)))

(* group position, group misalignment, then shifts, rotations and stretches   *)
Place(pos, unc, sig, e, c) ==
  Prod(<< pos, unc, Shift(sig), Shift(e), Shift(c), Rot(sig), Rot(e), Rot(c),
          Stretch(sig), Stretch(e), Stretch(c) >>)
Member(g, i) == Place(g.pos, g.unc, g.sig[i], g.e[i], g.c[i])
RECURSIVE MembersFrom(_, _)
MembersFrom(g, i) == IF i > Len(g.e) THEN << >> ELSE << Member(g, i) >> \o MembersFrom(g, i + 1)
Members(g) == MembersFrom(g, 1)

(* inverse of an affine matrix *)
Inv4(M) ==
  LET a == Col3(M, 1)  b == Col3(M, 2)  d == Col3(M, 3)
      det == Det3(M)
      r1 == Cross(b, d)  r2 == Cross(d, a)  r3 == Cross(a, b)
      over(r) == << Div(r[1], det), Div(r[2], det), Div(r[3], det) >>
      L == << over(r1), over(r2), over(r3) >>
      t == TransPart(M)
      ti == << Opp(Dot(L[1], t)), Opp(Dot(L[2], t)), Opp(Dot(L[3], t)) >>
  IN MM(Transl(ti), Lin4(L))
RECURSIVE AllMM(_, _)
AllMM(A, s) == IF s = << >> THEN << >> ELSE << MM(A, s[1]) >> \o AllMM(A, Tail(s))
(* the reference point moves, the members stay *)
Recentred(g, C) ==
  LET P == MM(C, g.pos)
      rel == MM(Inv4(P), g.pos)
  IN [g EXCEPT !.pos = P, !.e = AllMM(rel, g.e)]

(* rotations about the x, then the y, then the z axis *)
RotX(c, s) == Lin4(<< <<One, Zero, Zero>>, <<Zero, c, Opp(s)>>, <<Zero, s, c>> >>)
RotY(c, s) == Lin4(<< <<c, Zero, s>>, <<Zero, One, Zero>>, <<Opp(s), Zero, c>> >>)
RotZ(c, s) == Lin4(<< <<c, Opp(s), Zero>>, <<s, c, Zero>>, <<Zero, Zero, One>> >>)
(* displacement v = << dx, dy, dz, rx, ry, rz >> *)
Displace(v) == MM(Transl(<<v[1], v[2], v[3]>>),
                  Prod(<< RotZ(Cos(v[6]), Sin(v[6])), RotY(Cos(v[5]), Sin(v[5])), RotX(Cos(v[4]), Sin(v[4])) >>))
(* proper rigid motion *)
IsRigid(M, tol) ==
  /\ \A i \in 1..3 : \A j \in 1..3 :
       Near(Dot(Col3(M, i), Col3(M, j)), IF i = j THEN One ELSE Zero, tol)
  /\ Gt(Det3(M), Zero)
  /\ M[4] = Id4[4]
(* element frame: x along n, y in the plane of n and p on the side of p, right-handed *)
Framed(M, n, p, tol) ==
  LET ex == Unit(n)
      q == Unit(p)
      ey == Unit(VSub(q, VScale(Dot(q, ex), ex)))
  IN /\ VNear(Col3(M, 1), ex, tol)
     /\ VNear(Col3(M, 2), ey, tol)
     /\ VNear(Col3(M, 3), Cross(ex, ey), tol)
(* arguments for member i of n: lists with one entry per member are shared out *)
ArgFor(a, i, n) == IF a.islist /\ Len(a.val) = n THEN << a.val[i] >> ELSE a.val
=============================================================================
