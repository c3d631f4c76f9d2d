------------------------------ MODULE TablesMC ------------------------------
(* All histories of assignments, element assignments, row selections and      *)
(* copies with a few names and values: the storage in two parts always shows  *)
(* the values a plain table would show.  "Leaky" is the wrong design in which  *)
(* assigning a column leaves the keyword behind; it must be told apart.       *)
EXTENDS Tables, TLC
CONSTANTS Nm, Val, MaxRow, MaxStep
VARIABLES t, s, copy, step
vars == << t, s, copy, step >>
Init == /\ \E n \in 2..MaxRow : t = [n |-> n, col |-> ("r" :> [i \in 1..n |-> i]), key |-> [x \in {} |-> 0]]
                             /\ s = [n |-> n, val |-> ("r" :> [i \in 1..n |-> i])]
        /\ copy = << >> /\ step = 0
Seqs(n) == [1..n -> Val]
Assigning(nm, v, p) == t' = Assign(t, nm, v, p) /\ s' = SAssign(s, nm, v) /\ UNCHANGED copy
Setting(nm, i, v) == t' = SetElem(t, nm, << i >>, << v >>, TRUE) /\ s' = SElem(s, nm, << i >>, << v >>) /\ UNCHANGED copy
Selecting(rows) == t' = Select(t, rows) /\ s' = SSelect(s, rows) /\ UNCHANGED copy
Copying == copy = << >> /\ copy' = << t, s >> /\ UNCHANGED << t, s >>
Do == \/ \E nm \in Nm, v \in Seqs(t.n), p \in BOOLEAN : Assigning(nm, v, p)
      \/ \E nm \in DOMAIN t.col \cap Nm, i \in 1..t.n, v \in Val : Setting(nm, i, v)
      \/ \E a \in 1..t.n, b \in 1..t.n : Selecting(<< a, b >>)
      \/ Copying
Next == step < MaxStep /\ step' = step + 1 /\ Do
AgreeOK == Agree(t, s)
HomeOK == OneHome(t)
CopyOK == copy # << >> => Agree(copy[1], copy[2]) /\ OneHome(copy[1])
(* assigning a varying sequence to a keyword without removing the keyword shows old values *)
Leaky(tt, nm, v) == [tt EXCEPT !.col = Upd(@, nm, v)]
LeakSeen == \A nm \in DOMAIN t.key : \A v \in Seqs(t.n) : ~Same(v) => ~OneHome(Leaky(t, nm, v)) /\ Seen(Leaky(t, nm, v), nm) # v
=============================================================================
