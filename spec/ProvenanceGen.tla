---------------------------- MODULE ProvenanceGen ----------------------------
(* Histories of tags on two headers. *)
EXTENDS ProvenanceMC, Json
VARIABLE log
GInit == Init /\ log = << [setup |-> tags] >>
GNext == step < MaxStep /\ step' = step + 1 /\ \E h \in 1..2, i \in 1..2, c \in Small :
            Use(h, i, c) /\ log' = Append(log, [h |-> h, i |-> i, c |-> c])
Tell == step = MaxStep => PrintT("@B " \o ToJson(log))
=============================================================================
