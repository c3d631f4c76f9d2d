---------------------------- MODULE SortingTrace ----------------------------
(*  A window definition is [kind, val, z, en, w, fwhm]: fixed width in eV, fixed  *)
(*  fraction (z = quantile of the normal distribution, verified here) or fraction *)
(*  of the distance to the next order; en, w: width of the detector response.     *)
(*  window: E (eV), order -> tab (widths below, above), range (lower, upper)       *)
(*  factor: nominal E, extracted order, true order -> factor                       *)
(*  arf:    file id with area, elo, ehi (keV), true order appears                  *)
(*  apply:  win, order, file id -> file to; area, factor, header as read           *)
(*  bulk:   orders, offsets, files available -> files found and their content      *)
(*  refuse: file exists, overwrite not allowed: raised, content unchanged          *)
EXTENDS Sorting, Stats, TraceBase
TraceSt0 == [id |-> {}, f |-> << >>]
FwhmOverSigma == <<1, 9493, 5030, 2004, 3548, 2>>
Force(f) == SubSeq(f, 1, Len(f))
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sigma(w, E) == LET s == LinInterp(w.en, w.w, E) IN IF w.fwhm THEN Div(s, FwhmOverSigma) ELSE s
AbsI(n) == IF n < 0 THEN -n ELSE n
ZOK(w) == w.kind = "fraction" /\ Lt(w.val, One) => Near(Sub(Phi(w.z), Phi(Opp(w.z))), w.val, E9)
Half(w, E, o) == CASE w.kind = "width" -> w.val
                   [] w.kind = "distance" -> Div(Mul(w.val, E), I(2 * AbsI(o)))
                   [] w.kind = "fraction" -> Mul(w.z, Sigma(w, E))
Unlimited(w) == w.kind = "fraction" /\ ~Lt(w.val, One)
Factor(w, E, o, m) ==
    IF ~SameSide(o, m) THEN Zero
    ELSE IF Unlimited(w) THEN One
    ELSE LET Et == Mul(E, Q(m, o))  s == Sigma(w, Et)  h == Half(w, E, o)
         IN  Sub(Phi(Div(Sub(Add(E, h), Et), s)), Phi(Div(Sub(Sub(E, h), Et), s)))
Tol == E9
Mid(e, i) == Mul(I(500), Add(e.elo[i], e.ehi[i]))              \* keV to eV
FileFac(w, f, o) == Force([i \in 1..Len(f.orig) |-> Factor(w, Mul(Mid(f, i), Q(o, f.m)), o, f.m)])
FacOK(got, fac) == Len(got) = Len(fac) /\ \A i \in DOMAIN fac : Near(got[i], fac[i], Tol)
(* a recorded factor too small to divide by cannot be undone: that bin is not judged any longer *)
Lives(f, fac) == {i \in f.known : Gt(fac[i], E6)}
AreaOK(got, f, fac) == Len(got) = Len(fac) /\ \A i \in f.known : Near(got[i], Mul(f.orig[i], fac[i]), Mul(Mul(I(10), E9), Add(One, f.orig[i])))
After(f, fac) == [f EXCEPT !.known = Lives(f, fac)]
(* content of one file written *)
ContentOK(w, f, o, c) == LET fac == FileFac(w, f, o) IN FacOK(c.fac, fac) /\ AreaOK(c.area, f, fac)
HeadOK(w, f, o, c) == c.ccd = o /\ c.true = f.m /\ c.order = f.m /\ c.instr = "ORDER_" \o ToString(o) /\ c.osip = w.descr
TraceStep(s, e) ==
  CASE e.k = "window" -> [st |-> s, ck |->
        IF ~ZOK(e.win) THEN << <<"quantile given to the specification", FALSE>> >>
        ELSE << <<"window is as wide as specified on both sides", Len(e.lo) = Len(e.E) /\ Len(e.hi) = Len(e.E) /\ \A i \in DOMAIN e.E :
                    IF Unlimited(e.win) THEN e.lo[i] = NegInf /\ e.hi[i] = Inf /\ e.tlo[i] = Inf /\ e.thi[i] = Inf
                    ELSE LET h == Half(e.win, e.E[i], e.order)  tol == Mul(E9, e.E[i]) IN
                         /\ Near(e.tlo[i], h, tol) /\ Near(e.thi[i], h, tol)
                         /\ Near(e.lo[i], Sub(e.E[i], h), tol) /\ Near(e.hi[i], Add(e.E[i], h), tol)>> >>]
    [] e.k = "factor" -> [st |-> s, ck |->
        << <<"factor is the share of the response to the true order in the window", Len(e.fac) = Len(e.E) /\ \A i \in DOMAIN e.E :
                Near(e.fac[i], Factor(e.win, e.E[i], e.order, e.true), Tol)>> >>
        \o (IF e.win.kind = "width" /\ e.win.val = Zero THEN << <<"empty window: factor zero", \A i \in DOMAIN e.E : e.fac[i] = Zero>> >> ELSE << >>)
        \o (IF Unlimited(e.win) /\ SameSide(e.order, e.true) THEN << <<"unlimited window: factor one", \A i \in DOMAIN e.E : e.fac[i] = One>> >> ELSE << >>)
        \o (IF ~SameSide(e.order, e.true) THEN << <<"orders on different sides: factor zero", \A i \in DOMAIN e.E : e.fac[i] = Zero>> >> ELSE << >>)]
    [] e.k = "arf" -> [st |-> [id |-> s.id \cup {e.id}, f |-> Upd(s.f, e.id, [orig |-> e.area, elo |-> e.elo, ehi |-> e.ehi, m |-> e.m, known |-> 1..Len(e.area)])],
                       ck |-> << >>]
    [] e.k = "apply" -> 
        LET f == s.f[e.id]  fac == FileFac(e.win, f, e.order)
        IN [st |-> [id |-> s.id \cup {e.to}, f |-> Upd(s.f, e.to, After(f, fac))], ck |->
            << <<"area is the original times the factor applied last", AreaOK(e.c.area, f, fac)>>,
               <<"factor is recorded", FacOK(e.c.fac, fac)>>,
               <<"orders and window are recorded in the header", HeadOK(e.win, f, e.order, e.c)>>,
               <<"file name gives extracted and true order", e.name = e.root \o "_ccdord_" \o ToString(e.order) \o "_true_" \o ToString(f.m) \o ".arf">>,
               <<"input file is not changed", e.same>>,
               <<"exactly one file is written", e.nnew = 1>> >>]
    [] e.k = "bulk" -> [st |-> s, ck |->
        LET av == {s.f[i].m : i \in s.id}
            offs == {e.offsets[i] : i \in DOMAIN e.offsets}
            want == Wanted({e.orders[i] : i \in DOMAIN e.orders}, offs, av)
            got == {<< e.found[i].o, e.found[i].m >> : i \in DOMAIN e.found}
            of(m) == s.f[CHOOSE i \in s.id : s.f[i].m = m]
        IN << <<"bulk: one file per requested combination that applies, no other", got = want /\ Cardinality(got) = Len(e.found)>>,
              <<"bulk: every file has the corrected area and factor of its pair of orders",
                  \A i \in DOMAIN e.found : e.found[i].m \in av => ContentOK(e.win, of(e.found[i].m), e.found[i].o, e.found[i].c)>>,
              <<"bulk: headers", \A i \in DOMAIN e.found : e.found[i].m \in av => HeadOK(e.win, of(e.found[i].m), e.found[i].o, e.found[i].c)>>,
              <<"bulk: input files are not changed", e.same>> >>]
    [] e.k = "refuse" -> [st |-> s, ck |-> << <<"existing file is not overwritten unless allowed", e.raised /\ e.same>> >>]
=============================================================================
