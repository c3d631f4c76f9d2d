-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact fixed-point arithmetic for TLC, whose own integers are 32 bit.    *)
(*                                                                         *)
(* A number is a tuple << s, l0, l1, ... >>: sign s \in {-1,0,1} and the   *)
(* little-endian base-10^4 limbs of |x| * 10^16 (no trailing zero limbs).  *)
(* Zero is <<0>>.  NaN is <<9>>, +inf <<8>>, -inf <<-8>>.  Sums,           *)
(* differences and comparisons are exact; products, quotients and roots    *)
(* are truncated towards zero at 10^-16.  Every comparison with NaN is     *)
(* FALSE, so a NaN where a number is required always violates a clause.    *)
(*                                                                         *)
(* All definitions below are executable TLA+.  For speed TLC replaces the  *)
(* public ones by spec/java/Num.java; NumTest.tla compares the two.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000
NaN    == <<9>>
Inf    == <<8>>
NegInf == <<-8>>
Zero   == <<0>>
IsNaN(a)  == a = <<9>>
Finite(a) == a[1] \in {-1, 0, 1}

---------------------------------------------------------------------------
(* magnitudes: sequences of limbs *)
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN <<>>
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Mag(a) == SubSeq(a, 2, Len(a))
Mk(s, m) == LET t == Trim(m) IN IF t = <<>> THEN Zero ELSE <<s>> \o t
LimbAt(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) == IF i = 0 THEN 0
                    ELSE IF LimbAt(x, i) < LimbAt(y, i) THEN -1
                    ELSE IF LimbAt(x, i) > LimbAt(y, i) THEN 1
                    ELSE CmpFrom(x, y, i - 1)
CmpMag(x, y) == CmpFrom(x, y, MaxI(Len(x), Len(y)))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) ==
    IF i > MaxI(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == LimbAt(x, i) + LimbAt(y, i) + c
         IN  <<s % Base>> \o AddFrom(x, y, i + 1, s \div Base)
AddMag(x, y) == AddFrom(x, y, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, i, b) ==
    IF i > Len(x) THEN <<>>
    ELSE LET d == LimbAt(x, i) - LimbAt(y, i) - b
         IN  IF d < 0 THEN <<d + Base>> \o SubFrom(x, y, i + 1, 1)
             ELSE <<d>> \o SubFrom(x, y, i + 1, 0)
SubMag(x, y) == Trim(SubFrom(x, y, 1, 0))      \* needs x >= y

RECURSIVE ConvAt(_, _, _, _)
ConvAt(x, y, k, i) ==                          \* sum_i x[i] * y[k-i+1]
    IF i > Len(x) THEN 0
    ELSE (IF k - i + 1 >= 1 /\ k - i + 1 <= Len(y) THEN x[i] * y[k - i + 1] ELSE 0)
         + ConvAt(x, y, k, i + 1)
RECURSIVE CarryFrom(_, _, _, _)
CarryFrom(x, y, k, c) ==
    IF k > Len(x) + Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == ConvAt(x, y, k, 1) + c
         IN  <<s % Base>> \o CarryFrom(x, y, k + 1, s \div Base)
MulMag(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Trim(CarryFrom(x, y, 1, 0))

Drop4(m) == IF Len(m) <= 4 THEN <<>> ELSE SubSeq(m, 5, Len(m))

(* one limb of a quotient: the largest q with q*y <= r *)
RECURSIVE QLimb(_, _, _, _)
QLimb(r, y, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF CmpMag(MulMag(y, <<mid>>), r) <= 0 THEN QLimb(r, y, mid, hi)
             ELSE QLimb(r, y, lo, mid - 1)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(x, y, i, r) ==                         \* big-endian walk, little-endian result
    IF i = 0 THEN <<>>
    ELSE LET r2 == Trim(<<x[i]>> \o r)
             q  == QLimb(r2, y, 0, Base - 1)
         IN  DivFrom(x, y, i - 1, SubMag(r2, MulMag(y, <<q>>))) \o <<q>>
DivMag(x, y) == Trim(DivFrom(x, y, Len(x), <<>>))

---------------------------------------------------------------------------
(* public operators *)
RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o IntLimbs(n \div Base)

I(n) == IF n = 0 THEN Zero
        ELSE IF n > 0 THEN <<1, 0, 0, 0, 0>> \o IntLimbs(n)
        ELSE <<-1, 0, 0, 0, 0>> \o IntLimbs(-n)
One == I(1)

Opp(a) == IF a = <<8>> THEN <<-8>> ELSE IF a = <<-8>> THEN <<8>>
          ELSE IF ~Finite(a) THEN NaN ELSE <<-a[1]>> \o Mag(a)
Abs(a) == IF a \in {<<8>>, <<-8>>} THEN <<8>>
          ELSE IF ~Finite(a) THEN NaN
          ELSE IF a[1] = -1 THEN <<1>> \o Mag(a) ELSE a

Cmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
             ELSE a[1] * CmpMag(Mag(a), Mag(b))
(* +-inf have sign cells +-8 and so order correctly; NaN never compares *)
Lt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) < 0
Le(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) <= 0
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
Eq(a, b) == ~IsNaN(a) /\ a = b

Add(a, b) ==
    IF ~Finite(a) \/ ~Finite(b) THEN NaN
    ELSE IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], AddMag(Mag(a), Mag(b)))
    ELSE IF CmpMag(Mag(a), Mag(b)) >= 0 THEN Mk(a[1], SubMag(Mag(a), Mag(b)))
    ELSE Mk(b[1], SubMag(Mag(b), Mag(a)))
Sub(a, b) == Add(a, Opp(b))

Mul(a, b) ==
    IF ~Finite(a) \/ ~Finite(b) THEN NaN
    ELSE Mk(a[1] * b[1], Drop4(MulMag(Mag(a), Mag(b))))

Div(a, b) ==
    IF ~Finite(a) \/ ~Finite(b) \/ b = Zero THEN NaN
    ELSE Mk(a[1] * b[1], DivMag(<<0, 0, 0, 0>> \o Mag(a), Mag(b)))

(* integer square root of |a| * 10^16 by Newton's iteration from above *)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == DivMag(AddMag(x, DivMag(n, x)), <<2>>)
                IN  IF CmpMag(y, x) >= 0 THEN x ELSE Newton(n, y)
Sqrt(a) == IF ~Finite(a) \/ a[1] = -1 THEN NaN
           ELSE IF a = Zero THEN Zero
           ELSE LET n == <<0, 0, 0, 0>> \o Mag(a)
                IN  Mk(1, Newton(n, [i \in 1..((Len(n) \div 2) + 1) |-> Base - 1]))

Q(n, d) == Div(I(n), I(d))

Pi     == <<1, 7932, 3589, 9265, 1415, 3>>      \* 3.1415926535897932
---------------------------------------------------------------------------
(* elementary functions by their power series *)
RECURSIVE SeriesSC(_, _, _, _)
SeriesSC(x2, term, k, acc) ==      \* next term = -term*x2/((k+1)(k+2))
    IF term = Zero THEN acc
    ELSE LET t == Opp(Div(Mul(term, x2), I((k + 1) * (k + 2))))
         IN  SeriesSC(x2, t, k + 2, Add(acc, t))
Sin(a) == IF ~Finite(a) THEN NaN ELSE SeriesSC(Mul(a, a), a, 1, a)
Cos(a) == IF ~Finite(a) THEN NaN ELSE SeriesSC(Mul(a, a), One, 0, One)
RECURSIVE SeriesE(_, _, _, _)
SeriesE(x, term, k, acc) ==
    IF term = Zero THEN acc
    ELSE LET t == Div(Mul(term, x), I(k)) IN SeriesE(x, t, k + 1, Add(acc, t))
Exp(a) == IF ~Finite(a) THEN NaN ELSE SeriesE(a, One, 1, One)

---------------------------------------------------------------------------
Min2(a, b) == IF Le(a, b) THEN a ELSE b
Max2(a, b) == IF Le(a, b) THEN b ELSE a
Sq(a) == Mul(a, a)
Near(a, b, tol) == Le(Abs(Sub(a, b)), tol)
(* |a-b| <= tol * (1 + |b|) *)
Close(a, b, tol) == Le(Abs(Sub(a, b)), Mul(tol, Add(One, Abs(b))))
(* equality of recorded values, NaN equal to NaN *)
Same(a, b) == a = b
Between(a, lo, hi) == Le(lo, a) /\ Le(a, hi)
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN Zero ELSE Add(s[i], SumFrom(s, i + 1))
SumSeq(s) == SumFrom(s, 1)
IsInt(a) == Finite(a) /\ (a = Zero \/ (Len(a) >= 6 /\ \A i \in 2..5 : a[i] = 0))
(* powers of ten *)
E4  == <<1, 0, 0, 0, 1>>
E5  == <<1, 0, 0, 1000>>
E7  == <<1, 0, 0, 10>>
E8  == <<1, 0, 0, 1>>
E10 == <<1, 0, 100>>
E3  == <<1, 0, 0, 0, 10>>
E6  == <<1, 0, 0, 100>>
E9  == <<1, 0, 1000>>
E12 == <<1, 0, 1>>
=============================================================================
