--------------------------- MODULE ProvenanceTrace ---------------------------
(*  setup:  tag id with the values given (tokens)                                *)
(*  list:   photon list id with its header                                       *)
(*  tag:    tag used on list, values in the call, header afterwards, days on     *)
(*          which it was used, data unchanged, same list returned                *)
(*  check:  two headers, keywords, missing allowed -> accepted                    *)
(*  energy: energies (NaN = none given) -> accepted                               *)
(*  refuse: analysis of a list with several energies                              *)
EXTENDS Provenance, Num, TraceBase
TraceSt0 == [tags |-> << >>, lists |-> << >>]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Tup(q) == {q[i] : i \in DOMAIN q}
(* a record as a function *)
Fun(r) == [k \in DOMAIN r |-> r[k]]
Differ(x) == \E i \in DOMAIN x : ~Near(x[i], x[1], Add(E5, Mul(Mul(I(10), E5), Abs(x[1]))))
Equal(x) == \A i \in DOMAIN x : Finite(x[i]) /\ Near(x[i], x[1], Mul(Q(9, 10), Mul(E5, Abs(x[1]))))
TraceStep(s, e) ==
  CASE e.k = "setup" -> [st |-> [s EXCEPT !.tags = Upd(@, e.id, Over([ORIGIN |-> e.origin, CREATOR |-> e.creator], Fun(e.kw)))], ck |-> << >>]
    [] e.k = "list" -> [st |-> [s EXCEPT !.lists = Upd(@, e.id, Fun(e.head))], ck |-> << >>]
    [] e.k = "tag" ->
        LET w(d) == Tag(s.lists[e.list], [DATE |-> d], s.tags[e.tag], Fun(e.version), Fun(e.call))
            want == IF \E d \in Tup(e.days) : w(d) = Fun(e.head) THEN Fun(e.head) ELSE w(e.days[1])
        IN [st |-> [s EXCEPT !.lists = Upd(@, e.list, want)], ck |->
            << <<"header holds the tags, call winning over setup", Fun(e.head) = want>>,
               <<"program version is recorded", \A k \in DOMAIN e.version : k \in DOMAIN e.head /\ (k \in DOMAIN e.call \/ e.head[k] = e.version[k])>>,
               <<"date is recorded", "DATE" \in DOMAIN e.head /\ ("DATE" \in DOMAIN s.tags[e.tag] \/ "DATE" \in DOMAIN e.call
                                       \/ \E d \in Tup(e.days) : e.head.DATE = d)>>,
               <<"photon data are not changed", e.same>>, <<"the tagged list is handed on", e.returned>>,
               <<"other lists are not changed", \A j \in DOMAIN e.others : Fun(e.others[j].head) = s.lists[e.others[j].id]>> >>]
    [] e.k = "check" -> [st |-> s, ck |->
        << <<"headers are accepted exactly if they agree", e.accepted <=> Accept(Fun(e.a), Fun(e.b), Tup(e.keys), e.missing)>>,
           <<"checking changes nothing", e.same>> >>]
    [] e.k = "energy" -> [st |-> s, ck |->
        IF Equal(e.x) THEN << <<"equal energies are accepted", e.accepted>> >>
        ELSE IF Differ(e.x) THEN << <<"different energies are refused", ~e.accepted>> >> ELSE << >>]
    [] e.k = "noenergy" -> [st |-> s, ck |-> << <<"a list without energies is accepted", e.accepted>> >>]
=============================================================================
