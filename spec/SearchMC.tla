------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* All instruments with up to MaxN places, built by adding a part behind   *)
(* everything that is there already, in any container it may go into.      *)
(* The declarative search is compared with a depth-first walk.             *)
(***************************************************************************)
EXTENDS Search
CONSTANTS MaxN
Derived == [C |-> <<"C", "O">>, D |-> <<"D", "C", "O">>, E |-> <<"E", "O">>, F |-> <<"F", "E", "O">>]
Conts == {"C", "D"}
VARIABLE t
Init == \E k \in Conts : t = << [path |-> << >>, obj |-> 1, kinds |-> Derived[k], cont |-> TRUE] >>
NChild(p) == Cardinality({n \in Places(t) : Len(n.path) = Len(p) + 1 /\ Prefix(p, n.path)})
(* a container that is on the path to the last place *)
Open(n) == n.cont /\ Prefix(n.path, t[Len(t)].path)
Next == /\ Len(t) < MaxN
        /\ \E n \in Places(t), k \in DOMAIN Derived :
             /\ Open(n)
             /\ t' = Append(t, [path |-> Append(n.path, NChild(n.path) + 1), obj |-> Len(t) + 1,
                                kinds |-> Derived[k], cont |-> k \in Conts])
Children(n) == {m \in Places(t) : Len(m.path) = Len(n.path) + 1 /\ Prefix(n.path, m.path)}
RECURSIVE Walk(_, _, _, _), WalkCh(_, _, _, _, _)
Walk(n, c, sub, stop) == LET me == IF Match(n, c, sub) THEN <<n.obj>> ELSE << >>
                         IN IF stop /\ me # << >> THEN me ELSE me \o WalkCh(n, 1, c, sub, stop)
WalkCh(n, i, c, sub, stop) ==
    IF i > Cardinality(Children(n)) THEN << >>
    ELSE Walk(CHOOSE m \in Children(n) : m.path[Len(m.path)] = i, c, sub, stop) \o WalkCh(n, i + 1, c, sub, stop)
Q == (DOMAIN Derived \cup {"O"}) \X BOOLEAN
WalkOK == \A n \in {x \in Places(t) : x.cont}, q \in Q, stop \in BOOLEAN : Walk(n, q[1], q[2], stop) = Find(t, n.path, q[1], q[2], stop)
(* places were added in beam order *)
BeamOK == Find(t, << >>, "O", TRUE, FALSE) = [i \in DOMAIN t |-> i]
Rng(s) == {s[i] : i \in DOMAIN s}
MonoOK == \A q \in Q : /\ Rng(Find(t, << >>, q[1], FALSE, q[2])) \subseteq Rng(Find(t, << >>, q[1], TRUE, FALSE))
                       /\ Rng(Find(t, << >>, q[1], q[2], TRUE)) \subseteq Rng(Find(t, << >>, q[1], q[2], FALSE))
                       /\ (Find(t, << >>, q[1], q[2], TRUE) = << >>) <=> (Find(t, << >>, q[1], q[2], FALSE) = << >>)
(* every match is below or at a place that a stopping search returns *)
CoverOK == \A q \in Q : \A n \in Found(t, << >>, q[1], q[2], FALSE) :
              Cardinality({o \in Found(t, << >>, q[1], q[2], TRUE) : Prefix(o.path, n.path)}) = 1
FirstOK == \A q \in Q :
    LET f == FirstTop(t, << >>, q[1], q[2])
        has(m) == Walk(m, q[1], q[2], FALSE) # << >>
    IN IF f = -1 THEN ~\E m \in Children(t[1]) : has(m)
       ELSE /\ \E m \in Children(t[1]) : m.path[1] = f + 1 /\ has(m)
            /\ \A m \in Children(t[1]) : m.path[1] <= f => ~has(m)
=============================================================================
