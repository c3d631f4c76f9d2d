----------------------------- MODULE TablesGen -----------------------------
(* Histories of TablesMC, written down action by action for the code to do.   *)
EXTENDS TablesMC, Json
VARIABLE log
GInit == Init /\ log = << [op |-> "start", n |-> t.n] >>
Say(r) == log' = Append(log, r)
GDo == \/ \E nm \in Nm, v \in Seqs(t.n), p \in BOOLEAN : Assigning(nm, v, p) /\ Say([op |-> "assign", name |-> nm, v |-> v, plain |-> p])
       \/ \E nm \in DOMAIN t.col \cap Nm, i \in 1..t.n, v \in Val : Setting(nm, i, v) /\ Say([op |-> "elem", name |-> nm, i |-> i, v |-> v])
       \/ \E a \in 1..t.n, b \in 1..t.n : a # b /\ Selecting(<< a, b >>) /\ Say([op |-> "select", rows |-> << a, b >>])
       \/ Copying /\ Say([op |-> "copy"])
GNext == step < MaxStep /\ step' = step + 1 /\ GDo
Tell == step = MaxStep => PrintT("@B " \o ToJson(log))
=============================================================================
