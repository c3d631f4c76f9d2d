--------------------------- MODULE ResponsesTrace ---------------------------
(*  row:    arr, thr, first -> n, f, c, m                                       *)
(*  build:  rows = the full matrix (numbers below thr to be cut), thr, first,   *)
(*          elo, ehi of the rows, clo, chi of the channels                      *)
(*  store:  all rows as stored now: z, fixed (padded), det = DETCHANS found,    *)
(*          single = values went through single precision                       *)
(*  expand: row, part (only stored channels) or full, lo, hi, out               *)
(*  wave:   the same with bounds in Angstrom                                    *)
(*  ebounds: edges x in a unit (kind, scale) -> channel, lo, hi                 *)
(*  gauss:  table of widths, edges in Angstrom, thr -> matrix rows              *)
(*  lsf:    tables of components for several extraction widths -> matrix rows   *)
EXTENDS Responses, Stats, TraceBase
TraceSt0 == [none |-> TRUE]
Force(f) == SubSeq(f, 1, Len(f))
KeepN(row, thr) == Force([i \in 1..Len(row) |-> Gt(row[i], thr)])
CutN(row, thr) == Cut(row, KeepN(row, thr), Zero)
EqRow(a, b, sg) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : IF sg THEN Near(a[i], b[i], Mul(E6, Abs(b[i]))) /\ (b[i] = Zero => a[i] = Zero) ELSE a[i] = b[i]
Idx(row, thr) == LET RECURSIVE F(_) F(i) == IF i > Len(row) THEN << >> ELSE (IF Gt(row[i], thr) THEN << i >> ELSE << >>) \o F(i + 1) IN F(1)
Sel(q, ix) == Force([k \in 1..Len(ix) |-> q[ix[k]]])
NoPad(z) == [z EXCEPT !.f = SubSeq(@, 1, z.n), !.c = SubSeq(@, 1, z.n)]
(* energy in keV of x given in a unit; scale to keV or Angstrom *)
KeV(x, kind, scale, hc) == IF kind = "energy" THEN Mul(x, scale) ELSE Div(hc, Mul(x, scale))
(* enclosed by two functions of the edges *)
GaussCdf(x, a) == Phi(Div(Sub(x, a[3]), a[2]))
LorCdf(x, a) == Add(Q(1, 2), Div(Atan(Div(Mul(I(2), Sub(x, a[3])), a[2])), Pi))
Bins(F) == Force([j \in 1..Len(F) - 1 |-> Sub(F[j + 1], F[j])])
RECURSIVE Rev(_)
Rev(q) == IF q = << >> THEN << >> ELSE Rev(Tail(q)) \o << Head(q) >>
(* entry v found where p is expected with a threshold *)
EntryOK(v, p, thr, tol) ==
    IF Gt(p, Add(thr, tol)) THEN Near(v, p, tol) ELSE IF Lt(p, Sub(thr, tol)) THEN v = Zero ELSE v = Zero \/ Near(v, p, tol)
RowOK(v, p, thr, tol) == Len(v) = Len(p) /\ \A j \in DOMAIN v : EntryOK(v[j], p[j], thr, tol)
(* bilinear interpolation on a grid of widths and wavelengths *)
GridAt(ws, ls, tab, w, l0) ==
    IF Len(ws) = 1 THEN LinInterp(ls, tab[1], l0)
    ELSE LinInterp(ws, Force([i \in 1..Len(ws) |-> LinInterp(ls, tab[i], l0)]), w)
(* e.comp = components, each [kind, a, s, p]: grids of amplitude, width, position *)
LsfRow(e, mid) ==
    LET G(t) == GridAt(e.ws, e.ls, t, e.w, mid)
        par == Force([k \in 1..Len(e.comp) |-> << Abs(G(e.comp[k].a)), Abs(G(e.comp[k].s)), Abs(G(e.comp[k].p)) >>])
        tot == SumSeq(Force([k \in 1..Len(par) |-> par[k][1]]))
        C(x) == SumSeq(Force([k \in 1..Len(par) |-> Mul(Div(par[k][1], tot),
                    IF e.comp[k].lor THEN LorCdf(x, par[k]) ELSE GaussCdf(x, par[k]))]))
        F == Force([j \in 1..Len(e.edges) |-> C(e.edges[j])])
        B == Bins(F)
        ee == G(e.ee)
    IN  Rev(Force([j \in 1..Len(B) |-> Mul(ee, B[j])]))          \* channels ascend in energy
MidOf(e, r) == LET n == Len(e.edges) IN Div(Add(e.edges[n - r], e.edges[n - r + 1]), I(2))    \* row r, ascending energy
TraceStep(s, e) ==
  CASE e.k = "row" -> [st |-> s, ck |->
        LET k == KeepN(e.arr, e.thr)
            z == [n |-> e.n, f |-> e.f, c |-> e.c, m |-> e.m]
        IN << <<"compressed row: number, start and length of the groups", e.n = Compress(e.arr, k, e.first).n
                  /\ e.f = Compress(e.arr, k, e.first).f /\ e.c = Compress(e.arr, k, e.first).c>>,
              <<"compressed row: entries above the threshold in order", e.m = Compress(e.arr, k, e.first).m>>,
              <<"compressed row: groups are maximal", Maximal(z)>>,
              <<"compressed row expands to the row", Expand(z, Len(e.arr), e.first, Zero) = Cut(e.arr, k, Zero)>> >>]
    [] e.k = "build" -> [st |-> [none |-> FALSE, full |-> Force([r \in 1..Len(e.rows) |-> CutN(e.rows[r], e.thr)]), first |-> e.first,
                                 clo |-> e.clo, chi |-> e.chi, nch |-> e.nch], ck |-> << >>]
    [] e.k = "store" -> [st |-> s, ck |->
        << <<"stored matrix expands to the matrix it was made from",
             Len(e.z) = Len(s.full) /\ \A r \in DOMAIN e.z :
                /\ EqRow(Expand(e.z[r], s.nch, s.first, Zero), s.full[r], e.single)
                /\ Maximal(NoPad(e.z[r]))>>,
           <<"number of channels is recorded", \A i \in DOMAIN e.det : e.det[i] = s.nch>>,
           <<"first channel number is recorded", \A i \in DOMAIN e.tl : e.tl[i] = s.first>> >>
        \o (IF e.fixed THEN << <<"fixed-length storage: all rows padded to one length", \A r \in DOMAIN e.z :
              Len(e.z[r].f) = Len(e.z[1].f) /\ Len(e.z[r].c) = Len(e.z[1].f) /\ Len(e.z[r].m) = Len(e.z[1].m)>> >> ELSE << >>)]
    [] e.k = "expand" -> [st |-> s, ck |->
        IF e.part THEN
           LET ix == Idx(s.full[e.row], Zero)
           IN << <<"channels with response: bounds", e.lo = Sel(s.clo, ix) /\ e.hi = Sel(s.chi, ix)>>,
                 <<"channels with response: values", EqRow(e.out, Sel(s.full[e.row], ix), e.single)>> >>
        ELSE << <<"response over all channels: bounds", e.lo = s.clo /\ e.hi = s.chi>>,
                <<"response over all channels: values", EqRow(e.out, s.full[e.row], e.single)>> >>]
    [] e.k = "wave" -> [st |-> s, ck |->
           LET ix == Idx(s.full[e.row], Zero)
           IN << <<"response in wavelength: bounds", Len(e.lo) = Len(ix) /\ Len(e.hi) = Len(ix) /\ \A i \in DOMAIN ix :
                       /\ Near(Mul(e.lo[i], s.chi[ix[i]]), e.hc, Mul(E9, e.hc)) /\ Near(Mul(e.hi[i], s.clo[ix[i]]), e.hc, Mul(E9, e.hc))>>,
                 <<"response in wavelength: values", EqRow(e.out, Sel(s.full[e.row], ix), e.single)>> >>]
    [] e.k = "ebounds" -> [st |-> s, ck |->
           LET n == Len(e.x) - 1
               en == Force([i \in 1..n + 1 |-> KeV(e.x[i], e.kind, e.scale, e.hc)])
               Rank(i) == Cardinality({j \in 1..n + 1 : Lt(en[j], en[i])}) + 1
               so == Force([p \in 1..n + 1 |-> en[CHOOSE i \in 1..n + 1 : Rank(i) = p]])
           IN << <<"channel bounds: ascending and without gaps", Len(e.lo) = n /\ Len(e.hi) = n
                     /\ (\A i \in 1..n - 1 : e.hi[i] = e.lo[i + 1]) /\ \A i \in 1..n : Lt(e.lo[i], e.hi[i])>>,
                 <<"channel bounds: energy of the edges", \A i \in 1..n : Near(e.lo[i], so[i], Mul(E9, so[i])) /\ Near(e.hi[i], so[i + 1], Mul(E9, so[i + 1]))>>,
                 <<"channel numbers count up", \A i \in 1..n : e.ch[i] = i - 1>> >>]
    [] e.k = "lsf" -> [st |-> s, ck |->
           << <<"rows are the line-spread function in the channels, centred on the energy of the row",
                \A r \in DOMAIN e.rows : RowOK(e.rows[r], LsfRow(e, MidOf(e, r)), e.thr, e.tol)>>,
              <<"rows sum to the enclosed fraction", \A r \in DOMAIN e.rows :
                   LET p == LsfRow(e, MidOf(e, r)) IN Near(SumSeq(e.rows[r]), SumSeq(p), Add(Mul(I(Len(p)), Add(e.thr, e.tol)), e.tol))>>,
              <<"number of channels is recorded", \A i \in DOMAIN e.det : e.det[i] = Len(e.edges) - 1>>,
              <<"given table is not changed", e.same>>,
              <<"energy grid of rows and channels", \A i \in 1..Len(e.edges) - 1 :
                   LET lo == Div(e.hc, e.edges[Len(e.edges) - i + 1])  hi == Div(e.hc, e.edges[Len(e.edges) - i])
                   IN Near(e.elo[i], lo, Mul(E6, lo)) /\ Near(e.ehi[i], hi, Mul(E6, hi)) /\ Near(e.clo[i], lo, Mul(E6, lo)) /\ Near(e.chi[i], hi, Mul(E6, hi))>> >>]
=============================================================================
