---------------------------- MODULE SortingGen ----------------------------
(* Histories of applications: which file is taken, which window is applied. *)
EXTENDS SortingMC, Json
VARIABLE log
GInit == Init /\ req = [o |-> {}, t |-> {}, a |-> {}] /\ log = << >>
GNext == DoApply /\ \E i \in DOMAIN files : \E q \in Fac :
            files' = Append(files, [f |-> ApplyTo(files[i].f, q), last |-> q]) /\ log' = Append(log, << i, q >>)
Tell == Len(files) = MaxFile => PrintT("@B " \o ToJson(log))
=============================================================================
