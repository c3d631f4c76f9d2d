------------------------------- MODULE Areas -------------------------------
(***************************************************************************)
(* Effective areas of an instrument with several optical axes that share   *)
(* one row of detector chips: the response of a set of channels in one     *)
(* grating order is mirror times filters times the number of channels      *)
(* whose dispersed ray lands on a chip.                                    *)
(***************************************************************************)
EXTENDS Vec, Stats, TLC
HC == Div(I(1239841984), I(100000000))                 \* keV Angstrom
Wave(en) == Div(HC, en)
MidOf(a, b) == Div(Add(a, b), I(2))
---------------------------------------------------------------------------
(* A chip is << << x, z >>, << x, z >> >>: its two ends.  A ray of wavelength lam (same unit as the   *)
(* period d) in order m leaves the optical axis at x0, f above the focal plane, with sin = m lam / d, *)
(* towards larger |x0| for positive orders.  Sines of the directions in which the ends are seen:      *)
Sgn(x) == IF x = Zero THEN Zero ELSE IF Lt(x, Zero) THEN I(-1) ELSE One
SinTo(end, x0, f) == LET dx == Mul(Sgn(x0), Sub(end[1], x0))  dz == Sub(f, end[2]) IN Div(dx, Sqrt(Add(Sq(dx), Sq(dz))))
SinRay(m, lam, d) == Div(Mul(I(m), lam), d)
Seen(chip, x0, f) == LET a == SinTo(chip[1], x0, f)  b == SinTo(chip[2], x0, f) IN << Min2(a, b), Max2(a, b) >>
(* "on", "off" or "edge" *)
OnOne(r, s, eps) == IF Gt(s, Add(r[1], eps)) /\ Lt(s, Sub(r[2], eps)) THEN "on"
                    ELSE IF Lt(s, Sub(r[1], eps)) \/ Gt(s, Add(r[2], eps)) THEN "off" ELSE "edge"
OnAny(R, s, eps) == LET V == { OnOne(R[i], s, eps) : i \in DOMAIN R }
                    IN IF "on" \in V THEN "on" ELSE IF "edge" \in V THEN "edge" ELSE "off"
---------------------------------------------------------------------------
(* mirror area of one order: between the tabulated wavelengths, never negative, zero outside *)
MirrorQuad(c, w0, w1, w) == IF Lt(w, w0) \/ Gt(w, w1) THEN Zero ELSE Max2(Zero, Add(c[1], Mul(w, Add(c[2], Mul(w, c[3])))))
(* filters: product of the tabulated transmissions, none outside any of the tables *)
Inside(t, en) == Le(t.x[1], en) /\ Le(en, t.x[Len(t.x)])
RECURSIVE FilterProduct(_, _, _)
FilterProduct(F, en, i) == IF i = 0 THEN One
                           ELSE IF ~Inside(F[i], en) THEN Zero
                           ELSE Mul(LinInterp(F[i].x, F[i].y, en), FilterProduct(F, en, i - 1))
---------------------------------------------------------------------------
(* names of the files *)
Signed(m) == IF m < 0 THEN ToString(m) ELSE "+" \o ToString(m)
ChanName(flags) == IF flags = "1111" THEN "all" ELSE flags
PlainName(flags, m, ext) == "chan_" \o ChanName(flags) \o "_" \o Signed(m) \o "." \o ext
MixedName(flags, ccd, true, ext) == "chan_" \o ChanName(flags) \o "_ccdord_" \o Signed(ccd) \o "_true_" \o Signed(true) \o "." \o ext
RECURSIVE Flags(_, _)
Flags(axes, S) == IF axes = << >> THEN "" ELSE (IF Head(axes) \in S THEN "1" ELSE "0") \o Flags(Tail(axes), S)
---------------------------------------------------------------------------
(* averages over apertures and orders: area is summed, resolving power weighted with it *)
Known(r) == { i \in DOMAIN r : ~IsNaN(r[i]) }
RECURSIVE SumOf(_, _)
SumOf(q, S) == IF S = {} THEN Zero ELSE LET i == CHOOSE i \in S : TRUE IN Add(q[i], SumOf(q, S \ {i}))
Weighted(r, a) == LET S == Known(r)  w == SumOf(a, S) IN
                  IF w = Zero THEN NaN ELSE Div(SumOf([i \in S |-> Mul(r[i], a[i])], S), w)
=============================================================================
