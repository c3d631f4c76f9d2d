------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Calibration tables in which a constant column may be stored as a header  *)
(* keyword.  A table is what is seen by name: a sequence of values, one per *)
(* row, for every name; whether a name is a column or a keyword makes no    *)
(* difference to what is read.                                              *)
(* The storage has two parts, col and key; a name is in exactly one.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Same(v) == \A i \in DOMAIN v : v[i] = v[1]
Rep(v, n) == [i \in 1..n |-> v]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Only(f, S) == [x \in S |-> f[x]]
Picked(v, rows) == SubSeq([i \in 1..Len(rows) |-> v[rows[i]]], 1, Len(rows))
(* --- what is seen --- *)
SeenNames(t) == DOMAIN t.col \cup DOMAIN t.key
Seen(t, nm) == IF nm \in DOMAIN t.key THEN Rep(t.key[nm], t.n) ELSE t.col[nm]
OneHome(t) == DOMAIN t.col \cap DOMAIN t.key = {}
(* --- operations on the storage; plain = a header can hold such values --- *)
AssignKey(t, nm, v) == [t EXCEPT !.key = Upd(@, nm, v), !.col = Without(@, nm)]
AssignCol(t, nm, v) == [t EXCEPT !.col = Upd(@, nm, v), !.key = Without(@, nm)]
Assign(t, nm, v, plain) == IF plain /\ Same(v) THEN AssignKey(t, nm, v[1]) ELSE AssignCol(t, nm, v)
SetElem(t, nm, idx, v, plain) ==
    Assign(t, nm, [i \in 1..t.n |-> IF \E k \in DOMAIN idx : idx[k] = i THEN v[CHOOSE k \in DOMAIN idx : idx[k] = i] ELSE t.col[nm][i]], plain)
Select(t, rows) == [t EXCEPT !.n = Len(rows), !.col = [x \in DOMAIN @ |-> Picked(@[x], rows)]]
(* --- the same on what is seen: a record of values per name --- *)
SAssign(s, nm, v) == [s EXCEPT !.val = Upd(@, nm, v)]
SElem(s, nm, idx, v) ==
    SAssign(s, nm, [i \in 1..s.n |-> IF \E k \in DOMAIN idx : idx[k] = i THEN v[CHOOSE k \in DOMAIN idx : idx[k] = i] ELSE s.val[nm][i]])
SSelect(s, rows) == [n |-> Len(rows), val |-> [x \in DOMAIN s.val |-> Picked(s.val[x], rows)]]
Agree(t, s) == t.n = s.n /\ SeenNames(t) = DOMAIN s.val /\ \A nm \in DOMAIN s.val : Seen(t, nm) = s.val[nm]
=============================================================================
