----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Containers of simulation parts.  A part is a leaf or a container with   *)
(* pre-steps, children and post-steps; around every child (a container is  *)
(* one child of the outer one) all pre-steps run before and all            *)
(* post-steps after it.  Children get the photon list and return one       *)
(* (perhaps another one), steps only look at the list at hand.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
Leaf(i) == [k |-> "leaf", id |-> i]
Seq3(pre, ch, post) == [k |-> "seq", pre |-> pre, ch |-> ch, post |-> post]

(* the calls that running t makes, in order: <<"step"|"part", id>> *)
RECURSIVE Flat(_), FlatCh(_, _)
Steps(s) == [i \in DOMAIN s |-> <<"step", s[i]>>]
Flat(t) == IF t.k = "leaf" THEN << <<"part", t.id>> >> ELSE FlatCh(t, 1)
FlatCh(t, i) == IF i > Len(t.ch) THEN << >>
                ELSE Steps(t.pre) \o Flat(t.ch[i]) \o Steps(t.post) \o FlatCh(t, i + 1)

(* --- history recorder ------------------------------------------------------- *)
(* positions d[photon][step]; keep step 1 and each step at which some photon is  *)
(* farther than tol from its position at the last step kept                      *)
RECURSIVE KeepFrom(_, _, _, _, _)
KeepFrom(same(_, _), n, i, last, acc) ==
    IF i > n THEN acc
    ELSE IF same(last, i) THEN KeepFrom(same, n, i + 1, last, acc)
    ELSE KeepFrom(same, n, i + 1, i, Append(acc, i))
Kept(same(_, _), n) == IF n = 0 THEN << >> ELSE KeepFrom(same, n, 2, 1, <<1>>)
=============================================================================
