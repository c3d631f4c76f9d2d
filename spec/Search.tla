------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Searching a nested instrument.  An instrument is a sequence of places;  *)
(* a place is [path, obj, kinds, cont]: the position of the place among    *)
(* its siblings at each level (the instrument itself has path << >>), the  *)
(* part that sits there, the kind of the part followed by all kinds it is  *)
(* derived from, and whether parts inside it are searched.                 *)
(* What a search must return is said without any walking: all matching     *)
(* places in the order of their paths, that is in the order of the beam.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Places(t) == {t[i] : i \in DOMAIN t}
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
Inside(p, q) == Prefix(p, q) /\ Len(p) < Len(q)
(* beam order: an enclosing part before what is in it, then sibling by sibling *)
Before(p, q) == \/ Inside(p, q)
                \/ \E i \in DOMAIN p : /\ i \in DOMAIN q /\ p[i] < q[i]
                                       /\ \A j \in 1..(i - 1) : p[j] = q[j]
Match(n, c, sub) == IF sub THEN \E i \in DOMAIN n.kinds : n.kinds[i] = c ELSE n.kinds[1] = c
(* places found when the search starts at path root *)
Found(t, root, c, sub, stop) ==
    LET m == {n \in Places(t) : Prefix(root, n.path) /\ Match(n, c, sub)}
    IN IF stop THEN {n \in m : ~\E o \in m : Inside(o.path, n.path)} ELSE m
Rank(S, n) == 1 + Cardinality({o \in S : Before(o.path, n.path)})
InOrder(S) == [r \in 1..Cardinality(S) |-> CHOOSE n \in S : Rank(S, n) = r]
Find(t, root, c, sub, stop) == LET s == InOrder(Found(t, root, c, sub, stop)) IN [r \in DOMAIN s |-> s[r].obj]
(* index (from 0) of the first part of root that is or contains a match; -1: none *)
FirstTop(t, root, c, sub) ==
    LET d == Len(root) + 1
        idx == {n.path[d] : n \in {o \in Found(t, root, c, sub, FALSE) : Len(o.path) >= d}}
    IN IF idx = {} THEN -1 ELSE (CHOOSE i \in idx : \A j \in idx : i <= j) - 1
=============================================================================
