---------------------------- MODULE ContainersMC ----------------------------
(* The execution of containers as a machine with an explicit stack of open    *)
(* containers, each running pre-steps, a child, post-steps, the next child.   *)
(* Checked for every tree up to the bounds: the calls are Flat(tree), every   *)
(* part receives the list the part before returned, nothing is run twice.     *)
EXTENDS Containers, TLC, FiniteSets
CONSTANTS MaxPre, MaxPost, Deep
VARIABLES tree, stack, log, tok, done
vars == << tree, stack, log, tok, done >>
Pres == { s \in {<<>>, <<"p">>, <<"p", "q">>} : Len(s) <= MaxPre }
Posts == { s \in {<<>>, <<"r">>, <<"r", "s">>} : Len(s) <= MaxPost }
Kids(T) == {<<>>} \cup { <<a>> : a \in T } \cup { <<a, b>> : a \in T, b \in T }
T0 == { Leaf("a"), Leaf("b") }
T1 == { Seq3(p, c, q) : p \in Pres, c \in Kids(T0), q \in Posts }
T2 == { Seq3(p, c, q) : p \in Pres, c \in Kids(T0 \cup T1), q \in Posts }
Init == /\ tree \in (IF Deep THEN T2 ELSE T0 \cup T1)
        /\ stack = << >> /\ log = << >> /\ tok = 0 /\ done = "no"
(* a frame: the container, its child number, the phase and the step in it *)
Frame(t) == [t |-> t, i |-> 1, ph |-> "pre", j |-> 1]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Call(kind, id) == log' = Append(log, <<kind, id, tok>>)
Back(s) == \* a child has returned: go on to the post-steps of the container around it
    IF s = << >> THEN s ELSE [s EXCEPT ![Len(s)] = [@ EXCEPT !.ph = "post", !.j = 1]]
Start == /\ stack = << >> /\ done = "no"
         /\ IF tree.k = "leaf"
            THEN /\ Call("part", tree.id) /\ tok' = tok + 1 /\ done' = "yes" /\ UNCHANGED << stack, tree >>
            ELSE /\ stack' = << Frame(tree) >> /\ done' = "running" /\ UNCHANGED << log, tok, tree >>
Step == /\ stack # << >> /\ UNCHANGED tree
        /\ LET f == Top IN
           IF f.i > Len(f.t.ch)
           THEN /\ stack' = Back(Pop) /\ UNCHANGED << log, tok >>
                /\ done' = IF Len(stack) = 1 THEN "yes" ELSE done
           ELSE CASE f.ph = "pre" ->
                       IF f.j <= Len(f.t.pre)
                       THEN /\ Call("step", f.t.pre[f.j]) /\ stack' = SetTop([f EXCEPT !.j = @ + 1])
                            /\ UNCHANGED << tok, done >>
                       ELSE LET c == f.t.ch[f.i] IN
                            IF c.k = "leaf"
                            THEN /\ Call("part", c.id) /\ tok' = tok + 1
                                 /\ stack' = Back(stack) /\ UNCHANGED done
                            ELSE /\ stack' = Append(stack, Frame(c)) /\ UNCHANGED << log, tok, done >>
                  [] f.ph = "post" ->
                       IF f.j <= Len(f.t.post)
                       THEN /\ Call("step", f.t.post[f.j]) /\ stack' = SetTop([f EXCEPT !.j = @ + 1])
                            /\ UNCHANGED << tok, done >>
                       ELSE /\ stack' = SetTop([f EXCEPT !.ph = "pre", !.j = 1, !.i = @ + 1])
                            /\ UNCHANGED << log, tok, done >>
Next == Start \/ Step
Parts(s) == { i \in DOMAIN s : s[i][1] = "part" }
Bare == [i \in DOMAIN log |-> << log[i][1], log[i][2] >>]
Order == /\ Len(log) <= Len(Flat(tree))
         /\ Bare = SubSeq(Flat(tree), 1, Len(log))
         /\ (done = "yes" => Bare = Flat(tree))
(* every call sees the list that the last part before it returned *)
Handed == \A i \in DOMAIN log : log[i][3] = Cardinality({ j \in Parts(log) : j < i })
Ends == done = "yes" => stack = << >>
(* the stack only grows as deep as the tree *)
Bounded == Len(stack) <= 2
Terminates == <>(done = "yes")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
