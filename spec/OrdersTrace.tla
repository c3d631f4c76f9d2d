----------------------------- MODULE OrdersTrace -----------------------------
(*  table: kind "list" (w), "file" (en, rows), "grid" (cells given per draw)  *)
(*         orders                                                            *)
(*  draw:  en, m, p - what the table returned for a photon of energy en       *)
(*  gdraw: en, x0, x1, y0, y1, blaze, c (corners per order), m, p, slack      *)
(*  freq:  n draws at energy en, counts per order                             *)
(*  gfreq: the same on a grid                                                 *)
EXTENDS Orders, TraceBase
TraceSt0 == [kind |-> "none"]
RowFor(s, en) == IF s.kind = "list" THEN s.w ELSE s.rows[CHOOSE k \in NearestTo(s.en, en) : TRUE]
Clear1(s, en) == s.kind = "list" \/ Cardinality(NearestTo(s.en, en)) = 1
HasOrder(s, w, m) == \E i \in Support(w) : s.orders[i] = m
NoLight(w) == Support(w) = {}
DrawCk(s, w, m, p) ==
    << <<"survival factor is the sum of the efficiencies", Near(p, Min2(Total(w), One), E9)>>,
       <<"order is listed with non-zero efficiency", NoLight(w) \/ HasOrder(s, w, m)>> >>
FreqCk(w, n, c) ==
    LET T == Total(w) IN << <<"frequency of the orders", \A i \in DOMAIN w : Plausible(c[i], n, Div(w[i], T))>> >>
HCnm == <<1, 0, 4300, 4198, 2398, 1>>     \* 1.2398419843 nm keV
Wave(en) == Div(HCnm, en)
CellW(s, e) == LET fx == Div(Sub(Wave(e.en), e.x0), Sub(e.x1, e.x0))
                   fy == Div(Sub(e.blaze, e.y0), Sub(e.y1, e.y0))
               IN [i \in DOMAIN e.c |-> Bilinear(e.c[i], fx, fy)]
Inside(e) == Lt(e.x0, Wave(e.en)) /\ Lt(Wave(e.en), e.x1) /\ Le(e.y0, e.blaze) /\ Le(e.blaze, e.y1)
TraceStep(s, e) ==
  CASE e.k = "table" -> [st |-> e, ck |-> << >>]
    [] e.k = "draw" -> [st |-> s, ck |-> IF Clear1(s, e.en) THEN DrawCk(s, RowFor(s, e.en), e.m, e.p) ELSE <<>>]
    [] e.k = "freq" -> [st |-> s, ck |-> IF Clear1(s, e.en) /\ ~NoLight(RowFor(s, e.en)) THEN FreqCk(RowFor(s, e.en), e.n, e.c) ELSE <<>>]
    [] e.k = "gdraw" -> [st |-> s, ck |->
          IF ~Inside(e) THEN << <<"cell of the table", FALSE>> >>
          ELSE LET w == CellW(s, e) IN
               << <<"survival factor is the sum of the interpolated efficiencies", Near(e.p, Total(w), E6)>>,
                  <<"order is listed with non-zero efficiency", NoLight(w) \/ HasOrder(s, w, e.m)>> >>]
    [] e.k = "gfreq" -> [st |-> s, ck |-> LET w == CellW(s, e) IN IF NoLight(w) THEN <<>> ELSE FreqCk(w, e.n, e.c2)]
    (* order tables for bars that are not parallel: the blaze angle really used, from a table linear in it *)
    [] e.k = "noise" -> [st |-> s, ck |->
          << <<"offsets of the blaze angle have mean zero", Le(Sq(e.mean), Mul(I(36), Div(Sq(e.sigma), I(e.n))))>>,
             <<"offsets of the blaze angle have the given width", Near(e.sd, e.sigma, Mul(e.sigma, Div(I(6), Sqrt(I(e.n)))))>> >>
          \o (IF e.lim = Zero THEN <<>> ELSE << <<"offsets stay within the top hat", Le(e.max, Add(e.lim, E7))>> >>)]
    [] e.k = "same" -> [st |-> s, ck |-> << <<e.what, Near(e.x, e.y, E9)>> >>]
=============================================================================
