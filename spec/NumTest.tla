------------------------------ MODULE NumTest ------------------------------
(* Prints results of the Num operators on fixed arguments.  Run once with    *)
(* and once without the Java override; vh/selftest.py compares the outputs.  *)
EXTENDS Num, TLC
VARIABLE x
Samples == << Zero, One, I(-1), I(7), I(-12345), I(2000000000), Q(1, 3), Q(-22, 7), Q(1, 9999),
              Pi, Opp(Pi), Mul(I(99999), I(99999)), E9, Opp(E12), Q(123456789, 1000),
              NaN, Inf, NegInf >>
Small == << Zero, One, I(-1), Q(1, 3), Q(-22, 7), Pi, I(5), Q(-1, 9999) >>
Bin(a, b) == << Add(a, b), Sub(a, b), Mul(a, b), Div(a, b), Lt(a, b), Le(a, b), Gt(a, b), Ge(a, b),
                Eq(a, b), Min2(a, b), Max2(a, b) >>
Un(a) == << Opp(a), Abs(a), Sqrt(a), IsInt(a) >>
Init == /\ x = 0
        /\ (\A i, j \in 1..Len(Samples) : PrintT(<<"B", i, j, Bin(Samples[i], Samples[j])>>))
        /\ (\A i \in 1..Len(Samples) : PrintT(<<"U", i, Un(Samples[i])>>))
        /\ (\A i \in 1..Len(Small) : PrintT(<<"F", i, Sin(Small[i]), Cos(Small[i]), Exp(Small[i])>>))
        /\ PrintT(<<"S", SumSeq(Small)>>)
Next == UNCHANGED x
=============================================================================
