------------------------------ MODULE FilesGen ------------------------------
(* What a user does with one photon list: sets keywords, moves columns, writes. *)
EXTENDS FilesMC, Json
VARIABLE log
GInit == Init /\ log = << >>
Do(a) == log' = Append(log, a)
GNext == step < MaxStep /\ step' = step + 1 /\
    \/ (UserSets /\ Do(IF Plain("START") \in DOMAIN mine' /\ Plain("START") \notin DOMAIN mine THEN "date" ELSE "observer"))
    \/ (Swap /\ Do("swap")) \/ (DropFirst /\ Do("drop")) \/ (DoEvt /\ Do("evt")) \/ (DoAsol /\ Do("asol"))
Tell == step = MaxStep => PrintT("@B " \o ToJson(log))
=============================================================================
