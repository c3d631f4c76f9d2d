-------------------------------- MODULE Vec --------------------------------
(* Three-vectors, 3x3 and 4x4 matrices (tuples of rows) over Num.            *)
EXTENDS Num
Dot(a, b)   == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
VAdd(a, b)  == << Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3]) >>
VSub(a, b)  == << Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3]) >>
VScale(k, a) == << Mul(k, a[1]), Mul(k, a[2]), Mul(k, a[3]) >>
VNeg(a)     == << Opp(a[1]), Opp(a[2]), Opp(a[3]) >>
Cross(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                  Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
Finite3(a)  == Finite(a[1]) /\ Finite(a[2]) /\ Finite(a[3])
Norm2(a)    == Dot(a, a)
(* scaled by the largest component, so that short vectors keep their digits *)
MaxAbs(a)   == Max2(Abs(a[1]), Max2(Abs(a[2]), Abs(a[3])))
Scaled(a, m) == << Div(a[1], m), Div(a[2], m), Div(a[3], m) >>
Norm(a)     == LET m == MaxAbs(a) IN
               IF ~Finite3(a) THEN NaN ELSE IF m = Zero THEN Zero
               ELSE LET b == Scaled(a, m) IN Mul(m, Sqrt(Dot(b, b)))
Unit(a)     == LET m == MaxAbs(a) IN
               IF ~Finite3(a) \/ m = Zero THEN <<NaN, NaN, NaN>>
               ELSE LET b == Scaled(a, m) IN Scaled(b, Sqrt(Dot(b, b)))
VNear(a, b, tol)  == \A i \in 1..3 : Near(a[i], b[i], tol)
VClose(a, b, tol) == \A i \in 1..3 : Close(a[i], b[i], tol)
IsUnit(a, tol)    == Near(Norm2(a), One, tol)
V0 == << Zero, Zero, Zero >>
XYZ(v) == << v[1], v[2], v[3] >>            \* drop the homogeneous coordinate

(* 4x4 matrices acting on points (w=1) and vectors (w=0) *)
Col3(M, j) == << M[1][j], M[2][j], M[3][j] >>
Dot4(r, v) == Add(Add(Mul(r[1], v[1]), Mul(r[2], v[2])), Add(Mul(r[3], v[3]), Mul(r[4], v[4])))
MV(M, v)   == << Dot4(M[1], v), Dot4(M[2], v), Dot4(M[3], v), Dot4(M[4], v) >>   \* tuples: TLC evaluates them once
Col4(M, j) == << M[1][j], M[2][j], M[3][j], M[4][j] >>
MM(A, C)   == LET c1 == Col4(C, 1)  c2 == Col4(C, 2)  c3 == Col4(C, 3)  c4 == Col4(C, 4)
              IN << << Dot4(A[1], c1), Dot4(A[1], c2), Dot4(A[1], c3), Dot4(A[1], c4) >>,
                    << Dot4(A[2], c1), Dot4(A[2], c2), Dot4(A[2], c3), Dot4(A[2], c4) >>,
                    << Dot4(A[3], c1), Dot4(A[3], c2), Dot4(A[3], c3), Dot4(A[3], c4) >>,
                    << Dot4(A[4], c1), Dot4(A[4], c2), Dot4(A[4], c3), Dot4(A[4], c4) >> >>
AppPt(M, p)  == XYZ(MV(M, << p[1], p[2], p[3], One >>))
AppVec(M, v) == XYZ(MV(M, << v[1], v[2], v[3], Zero >>))
MNear(A, C, tol)  == \A i \in 1..4 : \A j \in 1..4 : Near(A[i][j], C[i][j], tol)
MClose(A, C, tol) == \A i \in 1..4 : \A j \in 1..4 : Close(A[i][j], C[i][j], tol)
Id4 == << <<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>,
          <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, One>> >>
Transl(v) == << <<One, Zero, Zero, v[1]>>, <<Zero, One, Zero, v[2]>>,
                <<Zero, Zero, One, v[3]>>, <<Zero, Zero, Zero, One>> >>
(* affine matrix from a 3x3 block given by rows *)
Lin4(R) == << <<R[1][1], R[1][2], R[1][3], Zero>>, <<R[2][1], R[2][2], R[2][3], Zero>>,
              <<R[3][1], R[3][2], R[3][3], Zero>>, <<Zero, Zero, Zero, One>> >>
Diag4(z) == << <<z[1], Zero, Zero, Zero>>, <<Zero, z[2], Zero, Zero>>,
               <<Zero, Zero, z[3], Zero>>, <<Zero, Zero, Zero, One>> >>
TransPart(M) == Col3(M, 4)
LinPart(M) == Lin4(<< <<M[1][1], M[1][2], M[1][3]>>, <<M[2][1], M[2][2], M[2][3]>>, <<M[3][1], M[3][2], M[3][3]>> >>)
Det3(M) == Dot(Col3(M, 1), Cross(Col3(M, 2), Col3(M, 3)))
NaN3(a) == \A i \in 1..3 : IsNaN(a[i])
(* rotation of v about unit axis u by an angle given by its cosine and sine *)
Rodrigues(v, u, c, s) ==
    VAdd(VAdd(VScale(c, v), VScale(s, Cross(u, v))), VScale(Mul(Dot(u, v), Sub(One, c)), u))
=============================================================================
