---------------------------- MODULE CampaignTrace ----------------------------
(* start:   a campaign begins: todo (the calls it must make), pristine (digest    *)
(*          of the input photons for every energy)                                *)
(* wiggle, generate, before, trace, analyze: a callable is called                 *)
(* end:     results, input photons and parameter list afterwards                  *)
(* six:     the scan lists for steps of six degrees of freedom                    *)
(* select:  rows selected for one degree of freedom                               *)
EXTENDS Campaign, Num, FiniteSets, TraceBase
TraceSt0 == [todo |-> << >>, list |-> "none", out |-> "none", n |-> 0]
Todo(e) == IF e.energies = << >> THEN Campaign(e.params, e.parts)
           ELSE EnergyCampaign(e.energies, e.params, e.before, e.parts, e.reset)
Expected(s, call) == s.todo # << >> /\ Head(s.todo) = call
Rest(s) == IF s.todo = << >> THEN << >> ELSE Tail(s.todo)
(* scan lists: rows of six numbers *)
Z6 == [d \in 1..6 |-> Zero]
Row(d, x) == [Z6 EXCEPT ![d] = x]
Steps(e, d) == IF d <= 3 THEN e.trans ELSE e.rot
NearRow(a, b) == \A d \in 1..6 : Near(a[d], b[d], Add(Mul(E9, Abs(b[d])), <<1, 1>>)) \* relative, steps can be tiny
Wanted(e, neg) == {Z6} \cup UNION { { Row(d, Steps(e, d)[k]) : k \in DOMAIN Steps(e, d) } : d \in 1..6 }
                  \cup (IF neg THEN UNION { { Row(d, Opp(Steps(e, d)[k])) : k \in DOMAIN Steps(e, d) } : d \in 1..6 } ELSE {})
SameRowSet(rows, want) ==
  /\ Len(rows) = Cardinality(want)
  /\ \A w \in want : \E i \in DOMAIN rows : NearRow(rows[i], w)
  /\ \A i \in DOMAIN rows : \E w \in want : NearRow(rows[i], w)
OtherZero(e, i) == \A c \in DOMAIN e.cols : c = e.par \/ e.tab[i][c] = Zero
RECURSIVE Chosen(_, _)
Chosen(e, i) == IF i > Len(e.tab) THEN << >>
                ELSE (IF OtherZero(e, i) THEN << i >> ELSE << >>) \o Chosen(e, i + 1)
TraceStep(s, e) ==
  CASE e.k = "start" -> [st |-> [todo |-> Todo(e), list |-> e.pristine, out |-> "none", n |-> 0], ck |-> << >>]
    [] e.k = "wiggle" ->
         [st |-> [s EXCEPT !.todo = Rest(s), !.out = s.list, !.n = 0],
          ck |-> << <<"settings, energies and parts in order, each once", Expected(s, << e.k, e.what >>)>>,
                    <<"the tool gets the parts it should vary", e.targets = e.want>> >>]
    [] e.k = "generate" ->
         [st |-> [s EXCEPT !.todo = Rest(s), !.list = e.out],
          ck |-> << <<"settings, energies and parts in order, each once", Expected(s, << e.k, e.what >>)>> >>]
    [] e.k = "before" ->
         [st |-> [s EXCEPT !.todo = Rest(s), !.list = e.out],
          ck |-> << <<"settings, energies and parts in order, each once", Expected(s, << e.k, e.what >>)>>,
                    <<"parts before the toleranced ones pass the photons on", e.in = s.list>> >>]
    [] e.k = "trace" ->
         [st |-> [s EXCEPT !.todo = Rest(s), !.out = e.out, !.n = @ + 1],
          ck |-> << <<"settings, energies and parts in order, each once", Expected(s, << e.k, e.what >>)>>,
                    <<"every run starts from the same photons", s.n > 0 \/ e.in = s.list>>,
                    <<"every part sees what the part before returned", s.n = 0 \/ e.in = s.out>>,
                    <<"a copy of the photons is traced", s.n > 0 \/ ~e.callers>> >>]
    [] e.k = "analyze" ->
         [st |-> [s EXCEPT !.todo = Rest(s)],
          ck |-> << <<"settings, energies and parts in order, each once", Expected(s, << "analyze", "" >>)>>,
                    <<"analysis sees what the instrument returned", e.in = s.out>> >>]
    [] e.k = "end" ->
         [st |-> s, ck |-> << <<"campaign complete", s.todo = << >> >>,
            <<"one result per setting, with its parameters", e.results = e.want>>,
            <<"input photons unchanged", e.photons0 = e.photons1>>,
            <<"parameter list unchanged", e.params0 = e.params1>> >>]
    [] e.k = "waves" -> [st |-> s, ck |-> << <<"wavelength belongs to the energy",
         \A i \in DOMAIN e.en : Close(Mul(e.en[i], e.wave[i]), e.hc, E9)>> >>]
    [] e.k = "six" -> [st |-> s, ck |->
         << <<"scan list: every step of every degree of freedom, both signs, nominal once", SameRowSet(e.glob, Wanted(e, TRUE))>>,
            <<"scan list: one-sided", SameRowSet(e.ind, Wanted(e, FALSE))>>,
            <<"names of degrees of freedom", e.names = e.keys>> >>]
    [] e.k = "select" -> [st |-> s, ck |-> << <<"rows where only one degree of freedom changes", e.ids = Chosen(e, 1)>> >>]
=============================================================================
