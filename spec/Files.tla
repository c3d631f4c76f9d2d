------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Output files of an observation.  A header is a function from keywords to  *)
(* values.  Completing a header adds required keywords and leaves what is    *)
(* there; keywords for times follow from start and length.  Keywords that    *)
(* describe a column carry its number, so they are rewritten for the columns *)
(* as they are when a file is written.  Event and aspect files of one        *)
(* observation start at the same time.                                       *)
(***************************************************************************)
EXTENDS Sky
Over2(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Fill(head, req) == Over2(req, head)
Set(head, k, v) == Over2(head, [x \in {k} |-> v])
(* --- order of columns: c = [n name, b name without its last letter, a last letter, r rank by alphabet] *)
First4 == << "chip", "tdet", "det", "" >>
SkyPairs == << << "ra", "dec" >>, << "RA", "DEC" >>, << "ra", "de" >>, << "RA", "DE" >> >>
NamesOf(cs) == { cs[i].n : i \in DOMAIN cs }
At(cs, n) == CHOOSE i \in DOMAIN cs : cs[i].n = n
PairBases(cs) == { cs[i].b : i \in { i \in DOMAIN cs : cs[i].a = "x" /\ \E j \in DOMAIN cs : cs[j].a = "y" /\ cs[j].b = cs[i].b } }
InPair(cs, i) == cs[i].a \in {"x", "y"} /\ cs[i].b \in PairBases(cs)
RECURSIVE SkyTaken(_, _, _)
(* sky pairs present, in order; a name is used once *)
SkyTaken(cs, k, used) ==
    IF k > Len(SkyPairs) THEN << >>
    ELSE LET p == SkyPairs[k] IN
         IF p[1] \in NamesOf(cs) \ used /\ p[2] \in NamesOf(cs) \ used
         THEN << p[1], p[2] >> \o SkyTaken(cs, k + 1, used \cup {p[1], p[2]}) ELSE SkyTaken(cs, k + 1, used)
SkyCols(cs) == SkyTaken(cs, 1, {})
(* what must hold for the columns out, when the table had cs *)
IsPerm(cs, out) == Len(cs) = Len(out) /\ NamesOf(cs) = NamesOf(out)
PairsNeighbours(out) == \A b \in PairBases(out) : \E i \in 1..(Len(out) - 1) :
                           out[i].b = b /\ out[i].a = "x" /\ out[i + 1].b = b /\ out[i + 1].a = "y"
PlaceOf(out, b) == CHOOSE i \in DOMAIN out : out[i].b = b /\ out[i].a = "x"
NPair(cs) == 2 * Cardinality(PairBases(cs))
PairsFirst(out) == \A i \in 1..NPair(out) : InPair(out, i)
KnownFirst(out) ==
    /\ \A k, m \in 1..4 : k < m /\ First4[k] \in PairBases(out) /\ First4[m] \in PairBases(out) => PlaceOf(out, First4[k]) < PlaceOf(out, First4[m])
    /\ \A k \in 1..4 : \A b \in PairBases(out) \ {First4[m] : m \in 1..4} : First4[k] \in PairBases(out) => PlaceOf(out, First4[k]) < PlaceOf(out, b)
SkyNext(out) == \A i \in DOMAIN SkyCols(out) : out[NPair(out) + i].n = SkyCols(out)[i]
RestSorted(out) == \A i, j \in (NPair(out) + Len(SkyCols(out)) + 1)..Len(out) : i < j => out[i].r < out[j].r
SortLaw(cs, out) == IsPerm(cs, out) /\ PairsNeighbours(out) /\ PairsFirst(out) /\ KnownFirst(out) /\ SkyNext(out) /\ RestSorted(out)
(* --- keywords that describe columns ---------------------------------- *)
Limits == [CCD_ID |-> << I(0), I(9) >>, CHIPX |-> << I(2), I(1023) >>, CHIPY |-> << I(2), I(1023) >>,
           TDETX |-> << I(2), I(8191) >>, TDETY |-> << I(2), I(8191) >>, DETX |-> << Q(1, 2), Q(16385, 2) >>, DETY |-> << Q(1, 2), Q(16385, 2) >>,
           X |-> << Q(1, 2), Q(16385, 2) >>, Y |-> << Q(1, 2), Q(16385, 2) >>, PHA |-> << I(0), I(36855) >>,
           ENERGY |-> << I(0), I(1000000) >>, FLTGRADE |-> << I(0), I(255) >>]
PixelDeg == Div(Q(492, 1000), I(3600))
Centre == Q(8193, 2)
(* keywords <<kind, number>> wanted for columns named cs (upper case) *)
LimitKeys(cs) == { << k, i >> : k \in {"TLMIN", "TLMAX"}, i \in { i \in DOMAIN cs : cs[i] \in DOMAIN Limits } }
WcsKeys(cs) == { << k, i >> : k \in {"TCTYP", "TCRVL", "TCDLT", "TCRPX"}, i \in { i \in DOMAIN cs : cs[i] \in {"X", "Y"} } }
KeyVal(cs, k, i, ra, dec) ==
    CASE k = "TLMIN" -> Limits[cs[i]][1] [] k = "TLMAX" -> Limits[cs[i]][2] [] k = "TCRPX" -> Centre
      [] k = "TCRVL" -> IF cs[i] = "X" THEN ra ELSE dec
      [] k = "TCDLT" -> IF cs[i] = "X" THEN Opp(PixelDeg) ELSE PixelDeg
(* --- picture coordinates in the tangent plane back to the sky --------- *)
Deproject(ra, dec, dx, dy) ==      \* dx, dy in degrees to the east and north
    Unit(VAdd(SkyVec(ra, dec), VAdd(VScale(Rad(dx), EastAt(ra, dec)), VScale(Rad(dy), NorthAt(ra, dec)))))
(* --- times: start d in seconds since an epoch, length x ---------------- *)
Steps(x, dt) == { n \in 0..5000 : Lt(Mul(I(n), dt), x) }
(* --- quaternion (scalar first) applied to a vector --------------------- *)
QTurn(q, v) == LET r == << q[2], q[3], q[4] >>  t == VScale(I(2), Cross(r, v)) IN VAdd(v, VAdd(VScale(q[1], t), Cross(r, t)))
=============================================================================
