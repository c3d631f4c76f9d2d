----------------------------- MODULE SearchTrace -----------------------------
(*  build: the places of an instrument                                           *)
(*  find:  search started at root -> names of the parts returned                 *)
(*  first: position of the first top-level part -> index or -1                   *)
(*  beam:  calls of the parts when the instrument runs (names, in order)         *)
EXTENDS Search, TraceBase
TraceSt0 == << >>
Eq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
TraceStep(s, e) ==
  CASE e.k = "build" -> [st |-> e.places, ck |-> << >>]
    [] e.k = "find" ->
        LET want == Find(s, e.root, e.cls, e.sub, e.stop)
            all == {want[i] : i \in DOMAIN want} \cup {e.got[i] : i \in DOMAIN e.got}
        IN [st |-> s, ck |->
            << <<IF e.stop THEN "every branch is searched up to its first match" ELSE "every match is found once and nothing else",
                 \A x \in all : Count(e.got, x) = Count(want, x)>>,
               <<"matches are in beam order", (\A x \in all : Count(e.got, x) = Count(want, x)) => Eq(e.got, want)>>,
               <<"searching changes nothing", e.same>> >>]
    [] e.k = "first" -> [st |-> s, ck |->
        << <<"first top-level part with a match", e.got = FirstTop(s, e.root, e.cls, e.sub)>>,
           <<"searching changes nothing", e.same>> >>]
    [] e.k = "beam" -> [st |-> s, ck |->
        << <<"photons meet the parts in the order of the search", Eq(e.calls, Find(s, << >>, e.cls, FALSE, FALSE))>>,
           <<"the search gives the order in which photons meet parts", Eq(e.calls, e.found)>> >>]
=============================================================================
