----------------------------- MODULE FilesTrace -----------------------------
(*  sort:   columns before and after sorting                                      *)
(*  complete: header before and after completion, its times                       *)
(*  again:  header before and after completing it once more                       *)
(*  cols:   names of columns and the keywords that describe columns               *)
(*  evt:    event file read back; instr: keywords of an observation               *)
(*  asol:   aspect file read back; wcs: picture coordinates of a source           *)
EXTENDS Files, TraceBase
TraceSt0 == [off |-> NaN, start |-> NaN]
Tup(q) == {q[i] : i \in DOMAIN q}
Fun(r) == [k \in DOMAIN r |-> r[k]]
Derived == {"TSTART", "TSTOP", "OBS-MJD", "RADECSYS"} \cup { "MTYPE" \o ToString(i) : i \in 1..5 } \cup { "MFORM" \o ToString(i) : i \in 1..5 }
Required == {"ORIGIN", "HDUDOC", "CONTENT", "HDUNAME", "DATE", "DATE-OBS", "DATE-END", "TIMESYS", "MJDREF", "TIMEZERO", "TIMEUNIT",
             "BTIMNULL", "BTIMRATE", "BTIMDRFT", "BTIMCORR", "TIMEREF", "TASSIGN", "CLOCKAPP", "TIERRELA", "TIERABSO", "TIMVERSN",
             "TIMEPIXR", "TIMEDEL", "TSTART", "TSTOP", "OBS-MJD", "MISSION", "TELESCOP", "GRATING", "DATACLASS", "ONTIME", "DTCOR",
             "LIVETIME", "OBSERVER", "FOC_LEN"}
Kept(a, b) == \A k \in DOMAIN a : k \in Derived \/ (k \in DOMAIN b /\ b[k] = a[k])
NewIs(a, b, k, v) == k \in DOMAIN a \/ (k \in DOMAIN b /\ b[k] = v)
Day == I(86400)
Slack == I(75)                  \* between the time scales in use
TimesCk(s, e) ==
    << <<"stop minus start is the exposure time", Near(Sub(e.tstop, e.tstart), e.exposure, E5)>>,
       <<"start follows the date of the observation", /\ Near(e.tstart, e.naive, Slack)
            /\ (s.off # NaN => Near(Sub(e.tstart, e.naive), s.off, E3))>>,
       <<"clock counts from the reference day", Near(Mul(Sub(e.mjd, e.ref), Day), e.tstart, Slack)>>,
       <<"day number follows the date of the observation", Near(Mul(Sub(e.mjd, I(50814)), Day), e.naive, Slack)>>,
       <<"end is start plus exposure", e.hadend \/ Near(Sub(e.end, e.naive), e.exposure, Mul(I(2), E3))>>,
       <<"an observation without date starts now", e.haddate \/ Between(e.naive, Sub(e.now[1], One), Add(e.now[2], One))>> >>
HeadCk(a, b, e) ==
    << <<"keywords that are set are kept", Kept(a, b)>>,
       <<"required keywords are there", Required \subseteq DOMAIN b>>,
       <<"content and class say what the file is", \A k \in DOMAIN e.class : NewIs(a, b, k, e.class[k])>>,
       <<"live time is the exposure time", ("ONTIME" \in DOMAIN a \/ Eq(e.ontime, e.exposure)) /\ ("LIVETIME" \in DOMAIN a \/ Eq(e.livetime, e.exposure))>> >>
KeysOf(e, K) == { << e.keys[i].k, e.keys[i].i >> : i \in { i \in DOMAIN e.keys : e.keys[i].k \in K } }
ColsCk(e) ==
    << <<"limits are given for known columns only", KeysOf(e, {"TLMIN", "TLMAX"}) = LimitKeys(e.cols)>>,
       <<"world coordinates are given for X and Y only", KeysOf(e, {"TCTYP", "TCRVL", "TCDLT", "TCRPX"}) = WcsKeys(e.cols)>>,
       <<"column keywords have the values of their column", \A j \in DOMAIN e.keys :
            LET q == e.keys[j] IN q.i \in DOMAIN e.cols /\
            (IF q.k = "TCTYP" THEN q.t = (IF e.cols[q.i] = "X" THEN "RA---TAN" ELSE "DEC--TAN")
             ELSE (q.k \in {"TLMIN", "TLMAX"} => e.cols[q.i] \in DOMAIN Limits) /\ Close(q.v, KeyVal(e.cols, q.k, q.i, e.ra, e.dec), E10))>> >>
TraceStep(s, e) ==
  CASE e.k = "sort" -> [st |-> s, ck |->
        << <<"sorting keeps all columns", IsPerm(e.cols, e.out)>>, <<"values move with their columns", e.same>>,
           <<"pairs of coordinates are neighbours, in the usual order", IsPerm(e.cols, e.out) => PairsNeighbours(e.out) /\ PairsFirst(e.out) /\ KnownFirst(e.out)>>,
           <<"sky pairs are neighbours, then all others by name", IsPerm(e.cols, e.out) => SkyNext(e.out) /\ RestSorted(e.out)>> >>]
    [] e.k = "complete" -> [st |-> [s EXCEPT !.off = IF s.off = NaN THEN Sub(e.tstart, e.naive) ELSE @], ck |-> TimesCk(s, e) \o HeadCk(Fun(e.before), Fun(e.after), e)]
    [] e.k = "again" -> [st |-> s, ck |-> << <<"completing again changes nothing", Fun(e.before) = Fun(e.after)>> >>]
    [] e.k = "cols" -> [st |-> s, ck |-> ColsCk(e)]
    [] e.k = "instr" -> [st |-> s, ck |-> << <<"instrument is recorded in the header", \A k \in DOMAIN e.want : k \in DOMAIN e.head /\ e.head[k] = e.want[k]>> >>]
    [] e.k = "evt" -> [st |-> [s EXCEPT !.start = e.tstart], ck |->
        << <<"all photons are in the file", e.n = e.nlist>>, <<"columns keep their values", e.same>>,
           <<"the photon list keeps its columns", e.kept>>,
           <<"simulated position of the source has its own name", {"marxs_ra", "marxs_dec"} \subseteq Tup(e.names) /\ {"ra", "dec"} \cap Tup(e.names) = {}>>,
           <<"event times count from the start", \A i \in DOMAIN e.t0 : Near(Sub(e.t1[i], e.tstart), e.t0[i], E5)>>,
           <<"events lie within the observation", \A i \in DOMAIN e.t1 : Between(e.t1[i], Sub(e.tstart, E5), Add(e.tstop, E5))>>,
           <<"keywords of the list are in the file", \A k \in DOMAIN e.meta : k \in DOMAIN e.head /\ e.head[k] = e.meta[k]>>,
           <<"event and aspect file start at the same time", e.fresh \/ s.start = NaN \/ Near(s.start, e.tstart, E5)>> >> \o ColsCk(e)]
    [] e.k = "asol" -> [st |-> [s EXCEPT !.start = e.tstart], ck |->
        << <<"one entry per time step", e.n >= 1 /\ Lt(Mul(I(e.n - 1), e.dt), e.exposure) /\ Le(e.exposure, Add(Mul(I(e.n), e.dt), E9))>>,
           <<"aspect times count from the start", \A i \in DOMAIN e.rows : Near(Sub(e.rows[i].t, e.tstart), Mul(I(e.rows[i].i), e.dt), E5)>>,
           <<"aspect lists the pointing in degrees", \A i \in DOMAIN e.rows : \A j \in 1..3 : Close(Rad(e.rows[i].p[j]), e.rows[i].want[j], E9)>>,
           <<"attitude turns the axis to the pointing", \A i \in DOMAIN e.rows : LET r == e.rows[i] IN
                 VNear(QTurn(r.q, << One, Zero, Zero >>), SkyVec(r.p[1], r.p[2]), E8)>>,
           <<"attitude turns up to the roll angle", \A i \in DOMAIN e.rows : LET r == e.rows[i] IN
                 VNear(QTurn(r.q, << Zero, Zero, One >>), PZ([ra |-> r.p[1], dec |-> r.p[2], roll |-> r.p[3]]), E8)>>,
           <<"aspect file has no keywords of event columns", e.stale = 0>>,
           <<"content and class say what the file is", \A k \in DOMAIN e.class : k \in DOMAIN e.head /\ e.head[k] = e.class[k]>>,
           <<"keywords of the list are in the file", \A k \in DOMAIN e.meta : k \in DOMAIN e.head /\ e.head[k] = e.meta[k]>>,
           <<"stop minus start is the exposure time", Near(Sub(e.tstop, e.tstart), e.exposure, E5)>>,
           <<"event and aspect file start at the same time", e.fresh \/ s.start = NaN \/ Near(s.start, e.tstart, E5)>> >>]
    [] e.k = "wcs" -> [st |-> s, ck |->
        << <<"sky coordinates point at the source", VNear(Deproject(e.crval[1], e.crval[2], Mul(Sub(e.x, e.crpix[1]), e.cdelt[1]), Mul(Sub(e.y, e.crpix[2]), e.cdelt[2])),
                                                          SkyVec(e.ra, e.dec), E8)>> >>]
=============================================================================
