------------------------------ MODULE FilesMC ------------------------------
(* A user sets keywords, reorders and drops columns, and writes event and       *)
(* aspect files in any order.  A column keyword holds the name of the column it  *)
(* was written for.  The aspect file of a writer that copies the whole header    *)
(* ("lazy") and the start that every writer makes up for itself are told apart.  *)
EXTENDS Files, TLC
CONSTANT MaxStep, MaxSort
VARIABLES mine, head, cols, clock, evt, asol, lazy, own, step
vars == << mine, head, cols, clock, evt, asol, lazy, own, step >>
None == [x \in {} |-> 0]
AllCols == { "X", "Y", "PHA", "time" }
Kinds == {"TL", "TC"}
ColKey(h) == { k \in DOMAIN h : k \in Kinds \X (1..4) }
Drop(h, S) == [k \in DOMAIN h \ S |-> h[k]]
Plain(k) == << k, 0 >>
Req(content, t) == [k \in { Plain("CONTENT"), Plain("OBSERVER"), Plain("START") } |->
                      IF k[1] = "CONTENT" THEN content ELSE IF k[1] = "OBSERVER" THEN "MARXS" ELSE t]
Derive(h) == Set(h, Plain("TSTART"), h[Plain("START")])
ColKeys(cs) == [k \in { << "TL", i >> : i \in { i \in DOMAIN cs : cs[i] # "time" } } \cup { << "TC", i >> : i \in { i \in DOMAIN cs : cs[i] \in {"X", "Y"} } }
                  |-> cs[k[2]]]
WriteEvt(h, cs, t) == Derive(Fill(Over2(Drop(h, ColKey(h)), ColKeys(cs)), Req("EVT1", t)))
Times(h, t) == Derive(Fill(h, [k \in {Plain("START")} |-> t]))
WriteAsol(h, t) == Derive(Fill(Drop(Times(h, t), ColKey(h) \cup {Plain("CONTENT")}), Req("ACASOL", t)))
Init == /\ mine = None /\ head = None /\ cols = << "time", "PHA", "X", "Y" >> /\ clock = 1
        /\ evt = None /\ asol = None /\ lazy = None /\ own = None /\ step = 0
UserSets == \E p \in {<< "OBSERVER", "user" >>, << "START", 0 >>} : /\ mine' = Set(mine, Plain(p[1]), p[2]) /\ head' = Set(head, Plain(p[1]), p[2])
                                              /\ evt' = None /\ asol' = None /\ lazy' = None /\ own' = None /\ UNCHANGED << cols, clock >>
Swap == \E i \in 1..(Len(cols) - 1) : /\ cols' = [cols EXCEPT ![i] = cols[i + 1], ![i + 1] = cols[i]]
                                       /\ UNCHANGED << mine, head, clock, evt, asol, lazy, own >>
DropFirst == cols[1] \in {"time", "PHA"} /\ cols' = Tail(cols) /\ UNCHANGED << mine, head, clock, evt, asol, lazy, own >>
DoEvt == /\ head' = WriteEvt(head, cols, clock) /\ evt' = head' /\ clock' = clock + 1 /\ UNCHANGED << mine, cols, asol, lazy, own >>
DoAsol == /\ head' = Times(head, clock) /\ asol' = WriteAsol(head, clock)
          /\ lazy' = Derive(Fill(head, Req("ACASOL", clock))) /\ own' = Derive(Fill(Drop(head, ColKey(head) \cup {Plain("CONTENT")}), Req("ACASOL", clock)))
          /\ clock' = clock + 1 /\ UNCHANGED << mine, cols, evt >>
Next == step < MaxStep /\ step' = step + 1 /\ (UserSets \/ Swap \/ DropFirst \/ DoEvt \/ DoAsol)
(* what the user set is kept, in the list and in every file *)
KeptOK == \A h \in {head} \cup (IF evt = None THEN {} ELSE {evt}) \cup (IF asol = None THEN {} ELSE {asol}) :
             \A k \in DOMAIN mine : k \in DOMAIN h /\ h[k] = mine[k]
DerivedOK == \A h \in {head, evt, asol} : Plain("TSTART") \in DOMAIN h => evt = None \/ asol = None \/ h[Plain("TSTART")] = h[Plain("START")]
SameStartOK == evt # None /\ asol # None => evt[Plain("TSTART")] = asol[Plain("TSTART")]
AsolOK == asol # None => ColKey(asol) = {} /\ asol[Plain("CONTENT")] = "ACASOL"
ContentOK == evt # None => evt[Plain("CONTENT")] = "EVT1"
(* right after writing, every column keyword is that of its column *)
ColumnsOK == LET h == WriteEvt(head, cols, clock) IN
    /\ \A k \in ColKey(h) : k[2] \in DOMAIN cols /\ h[k] = cols[k[2]]
    /\ \A i \in DOMAIN cols : cols[i] # "time" => << "TL", i >> \in DOMAIN h
    /\ ColKey(WriteEvt(h, cols, clock)) = ColKey(h)
(* the two other writers differ only after an event file was written, or before a start is known *)
LazyOK == asol # None /\ ColKey(head) = {} => lazy = own
(* --- order of columns: a constructive order obeys the law, and only that ---- *)
Names == << << "chipx", "chip", "x", 2 >>, << "chipy", "chip", "y", 3 >>, << "dec", "de", "c", 4 >>, << "detx", "det", "x", 5 >>, << "dety", "det", "y", 6 >>,
            << "energy", "energ", "y", 7 >>, << "ra", "r", "a", 8 >>, << "x", "", "x", 11 >>, << "y", "", "y", 12 >>, << "gridx", "grid", "x", 13 >>, << "gridy", "grid", "y", 14 >> >>
Col(i) == [n |-> Names[i][1], b |-> Names[i][2], a |-> Names[i][3], r |-> Names[i][4]]
RECURSIVE ByRank(_)
ByRank(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE c \in S : \A d \in S : c.r <= d.r IN << m >> \o ByRank(S \ {m})
RECURSIVE Known(_, _)
ColN(S, n) == CHOOSE c \in S : c.n = n
Known(S, k) == IF k > 4 THEN << >>
               ELSE LET x == { c \in S : c.b = First4[k] /\ c.a = "x" }  y == { c \in S : c.b = First4[k] /\ c.a = "y" }
                    IN (IF x # {} /\ y # {} THEN << CHOOSE c \in x : TRUE, CHOOSE c \in y : TRUE >> ELSE << >>) \o Known(S, k + 1)
SeqSet(q) == { q[i] : i \in DOMAIN q }
Sorted(S) == LET k == Known(S, 1)
                 grid == { c \in S : c.b = "grid" }
                 g == IF Cardinality(grid) = 2 THEN ByRank(grid) ELSE << >>
                 sky == IF \E c \in S : c.n = "ra" THEN IF \E c \in S : c.n = "dec" THEN << ColN(S, "ra"), ColN(S, "dec") >> ELSE << >> ELSE << >>
             IN k \o g \o sky \o ByRank(S \ (SeqSet(k) \cup SeqSet(g) \cup SeqSet(sky)))
SortOK == step = 0 => \A T \in SUBSET (1..MaxSort) : LET S == { Col(i) : i \in T }  out == Sorted(S)  cs == ByRank(S) IN
            /\ SortLaw(cs, out)
            /\ \A i \in 1..(Len(out) - 1) : ~SortLaw(cs, [out EXCEPT ![i] = out[i + 1], ![i + 1] = out[i]])
(* --- the tangent plane ------------------------------------------------- *)
PlaneOK == step = 0 => \A d \in {0, 30, 77} : \A x \in {0, 1, 2} : \A y \in {0, 1} :
              LET v == Deproject(I(40), I(d), Q(x, 10), Q(y, 10)) IN
                 /\ Near(Norm(v), One, E10)
                 /\ Near(Mul(Rad(Q(x, 10)), Dot(v, SkyVec(I(40), I(d)))), OffE(<< I(40), I(d) >>, v), E10)
                 /\ Near(Mul(Rad(Q(y, 10)), Dot(v, SkyVec(I(40), I(d)))), OffN(<< I(40), I(d) >>, v), E10)
TurnQOK == step = 0 => LET h == Div(Sqrt(I(2)), I(2))  q == << h, Zero, Zero, h >> IN VNear(QTurn(q, << One, Zero, Zero >>), << Zero, One, Zero >>, E10)
=============================================================================
