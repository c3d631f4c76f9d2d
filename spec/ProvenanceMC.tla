---------------------------- MODULE ProvenanceMC ----------------------------
(* All histories of tagging two headers with two tags, and all consistency     *)
(* checks between the headers reached.  A tag that keeps the values of the last *)
(* call for the next one is told apart.                                         *)
EXTENDS Provenance, TLC
CONSTANTS Key, Val, MaxStep
VARIABLES head, leaky, tags, calls, step
vars == << head, leaky, tags, calls, step >>
Dicts == UNION {[S -> Val] : S \in SUBSET Key}
Small == {d \in Dicts : Cardinality(DOMAIN d) <= 1}
Date == ("DATE" :> 7)
Vers == ("V" :> 9)
None == [x \in {} |-> 0]
Init == /\ head = << None, None >> /\ leaky = << None, None >>
        /\ tags \in Small \X Small /\ calls = << None, None >> /\ step = 0
Use(h, i, c) == /\ head' = [head EXCEPT ![h] = Tag(@, Date, tags[i], Vers, c)]
                /\ leaky' = [leaky EXCEPT ![h] = Tag(@, Date, Over(tags[i], calls[i]), Vers, c)]
                /\ calls' = [calls EXCEPT ![i] = Over(@, c)]
                /\ UNCHANGED tags
Next == step < MaxStep /\ step' = step + 1 /\ \E h \in 1..2, i \in 1..2, c \in Small : Use(h, i, c)
(* last value written wins *)
VersionOK == \A h \in 1..2 : DOMAIN head[h] # {} => head[h]["DATE"] = 7 /\ head[h]["V"] = 9
SetsOf(q) == {q[i] : i \in DOMAIN q}
WalkOK == \A ks \in {<< "a", "b", "V" >>, << "V", "b" >>, << "b", "a" >>} : \A m \in BOOLEAN :
            Walk(head[1], head[2], ks, m, 1) <=> Accept(head[1], head[2], SetsOf(ks), m)
SymOK == \A m \in BOOLEAN : Accept(head[1], head[2], Key, m) <=> Accept(head[2], head[1], Key, m)
StrictOK == Accept(head[1], head[2], Key, FALSE) => Accept(head[1], head[2], Key, TRUE)
SelfOK == \A h \in 1..2 : Accept(head[h], head[h], Key, TRUE)
(* as long as no value was given in a call there is nothing to leak *)
LeakOK == (\A i \in 1..2 : calls[i] = None) => leaky = head
=============================================================================
