---------------------------- MODULE SearchGen ----------------------------
(* The instruments of SearchMC, for the code to build and search. *)
EXTENDS SearchMC, Json, TLC
Tell == PrintT("@B " \o ToJson([i \in DOMAIN t |-> [path |-> t[i].path, kind |-> t[i].kinds[1]]]))
=============================================================================
